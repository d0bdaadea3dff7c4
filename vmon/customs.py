"""loader for vmon.types_for_tests.Custom whose functions can be made to fail"""
from hickle.helpers import PyContainer
from hickle.lookup import LoaderManager
from .types_for_tests import Custom

FAIL = {'where': None, 'exc': RuntimeError}


def _maybe(where):
    if FAIL['where'] == where:
        raise FAIL['exc']('failing loader (%s)' % where)


def create_custom(obj, h_group, name, **kwargs):
    _maybe('create-before')
    g = h_group.create_group(name)
    g.attrs['note'] = 'custom'
    _maybe('create-after')

    def items():
        yield 'first', obj.v, {'pos': 1}, kwargs
        _maybe('subitems')
        yield 'second', [obj.v, 'tail'], {'pos': 2}, kwargs
    return g, items()


class CustomContainer(PyContainer):
    def __init__(self, h5_attrs, base_type, object_type):
        _maybe('container-init')
        super().__init__(h5_attrs, base_type, object_type, _content={})

    def filter(self, h_parent):
        _maybe('filter')
        yield from super().filter(h_parent)

    def append(self, name, item, h5_attrs):
        _maybe('append')
        self._content[name] = item

    def convert(self):
        _maybe('convert')
        return self.object_type(self._content['first'])


def register():
    LoaderManager.register_class(Custom, b'vmon-custom', create_custom, None, CustomContainer)
