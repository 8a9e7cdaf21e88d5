"""access to the code under test: always the current working tree of /repo"""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

for _p in (SITE, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
sys.path.insert(0, REPO)
sys.path.append(SITE)

# the versions of the dependencies that the repository is installed with
sys.path.insert(0, SITE)
for _m in ('yaml', 'six'):
    sys.modules.pop(_m, None)
import yaml  # noqa
import six  # noqa
sys.path.remove(SITE)
sys.path.append(SITE)

import warnings  # noqa
warnings.filterwarnings('ignore')
import setuptools  # noqa  (gives 'distutils' on python 3.12)
import logging  # noqa
logging.disable(logging.CRITICAL)

import pyopenapi  # noqa
assert os.path.realpath(pyopenapi.__file__).startswith(os.path.realpath(REPO)), pyopenapi.__file__

from pyopenapi import utils, consts, errs  # noqa
from pyopenapi.migration import base, resolve, getter, store, scan, spec  # noqa
from pyopenapi.migration.spec import obj as spec_obj, attr as spec_attr  # noqa
from pyopenapi.migration.versions import comm  # noqa
from pyopenapi.migration.versions.v1_2 import objects as o12  # noqa
from pyopenapi.migration.versions.v1_2.scanner import upgrade as up12  # noqa
from pyopenapi.migration.versions.v2_0 import objects as o20, main as main20  # noqa
from pyopenapi.migration.versions.v2_0.scanner.upgrade import converters as cv, parameter_context as pc  # noqa
from pyopenapi.migration.versions.v3_0_0 import objects as o30, main as main30  # noqa

OBJECTS = {'1.2': o12, '2.0': o20, '3.0.0': o30}


class App(base.ApiBase):
    """the smallest concrete application"""

    def __init__(self, url, url_load_hook=None, resolver=None, sep=consts.SCOPE_SEPARATOR):
        super(App, self).__init__(url, url_load_hook=url_load_hook, resolver=resolver, sep=sep)
        self.prepared = []

    def prepare_obj(self, obj, jref):
        self.prepared.append((type(obj), jref))
        return obj


class DocGetter(object):
    """default getter over a dictionary of documents, counting retrievals"""

    def __init__(self, docs):
        self.docs = docs
        self.log = []

    def __call__(self, *_a):
        raise NotImplementedError()

    def klass(self):
        outer = self

        class _Getter(getter.SimpleGetter):
            def load(self, path):
                outer.log.append(path)
                if path not in outer.docs:
                    raise IOError('no such document: ' + path)
                return outer.docs[path]

        return _Getter


def make_app(docs, url, sep=consts.SCOPE_SEPARATOR):
    """-> (app, getter log); 'docs': url -> dict or text"""
    source = DocGetter(docs)
    app = App(url, resolver=resolve.Resolver(default_getter=source.klass()), sep=sep)
    return app, source


def load(docs, url, sep=consts.SCOPE_SEPARATOR):
    app, source = make_app(docs, url, sep)
    app.raw = app.load_obj(url)
    return app


def create(docs, url, version, sep=consts.SCOPE_SEPARATOR):
    app = load(docs, url, sep)
    app.root = app.migrate_obj(app.raw, url, version)
    return app
