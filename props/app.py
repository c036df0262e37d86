# -*- coding: utf-8 -*-
"""An application over documents kept in memory."""
from pyopenapi.migration.base import ApiBase
from pyopenapi.migration.getter import Getter as BaseGetter
from pyopenapi.migration.resolve import Resolver

ROOT = 'http://h/d/a.json'
SEP = '!##!'


class Docs(object):
    """getter factory over a dictionary of documents; counts what is fetched"""

    def __init__(self, docs, yaml=False):
        self.docs = docs
        self.yaml = yaml                    # documents with integer keys, through a getter of the library
        self.fetched = []

    def resolver(self, hook=None):
        outer = self
        if self.yaml:
            return self.base(hook)

        class Getter(object):
            def __init__(self, url):
                self.url = url

            def __iter__(self):
                return self

            def __next__(self):
                outer.fetched.append(self.url)
                if self.url not in outer.docs:
                    raise Exception('no such document: ' + self.url)
                return outer.docs[self.url]

            next = __next__

        return Resolver(url_load_hook=hook, default_getter=Getter)

    def base(self, hook):
        outer = self

        class Loader(BaseGetter):
            def __init__(self, url):
                super(Loader, self).__init__(url)
                self.urls = [url]

            def load(self, path):
                outer.fetched.append(path)
                return outer.docs[path]

        return Resolver(url_load_hook=hook, default_getter=Loader)


class App(ApiBase):
    def __init__(self, docs, url=ROOT, sep=SEP, hook=None, resolver=None, yaml=False):
        self.src = Docs(docs, yaml)
        super(App, self).__init__(url, resolver=resolver or self.src.resolver(hook), sep=sep)

    def prepare_obj(self, obj, jref):
        return obj


def load(docs, url=ROOT):
    app = App(docs, url)
    return app, app.load_obj(url)


def migrate(docs, version='3.0.0', url=ROOT):
    """(app, object of the original version, migrated object)"""
    app, obj = load(docs, url)
    return app, obj, app.migrate_obj(obj, url, version)
