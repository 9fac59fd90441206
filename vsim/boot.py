"""Import the code under test behind the seam."""
import importlib
import os
import pkgutil
import sys
import warnings

from . import seam, simnet

REPO = seam.REPO


def boot():
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    seam.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pkg_resources
    # finding a plugin re-checks the whole distribution graph on every URL; it costs 40 ms and decides nothing
    pkg_resources.EntryPoint.require = lambda self, *a, **k: None
    import metatab
    assert os.path.realpath(metatab.__file__).startswith(os.path.realpath(REPO) + '/'), metatab.__file__
    for m in pkgutil.walk_packages(metatab.__path__, 'metatab.'):
        if not m.name.startswith('metatab.test'):
            importlib.import_module(m.name)
    import csv, json, yaml, shutil, tempfile, uuid, requests, urllib3, filelock, fs, fs.osfs  # noqa
    import fs.osfs
    import concurrent.futures, difflib, hashlib, glob, copy, datetime, locale, encodings.idna  # noqa
    import metatabdecl
    import metatab.templates
    simnet.install()
    fs.osfs.scandir = os.scandir
    seam.OVERLAY[:] = [os.path.dirname(metatabdecl.__file__), os.path.dirname(metatab.templates.__file__)]
    import rowgenerators
    from rowgenerators import parse_app_url, get_generator
    # resolve every plugin once, outside any run
    try:
        parse_app_url('http://example.com/x.csv')
        parse_app_url('/nonexistent/x.csv', proto='metatab')
    except Exception:
        pass
    import rowgenerators.appurl.web.download as dl
    dl.Downloader.singleton = None
    return metatab


def fresh_cache():
    """Point the downloader of the libraries at a cache on the simulated disk."""
    import fs.osfs
    import rowgenerators.appurl.url as u
    import rowgenerators.appurl.web.download as dl
    w = seam.active
    w.fs.put_dir('/vsim/cache')
    c = fs.osfs.OSFS('/vsim/cache')
    dl.Downloader.singleton = dl.Downloader(c)
    u.default_downloader = dl.Downloader.singleton
    return c
