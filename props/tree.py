"""Documents as trees, and what they mean by the declared fields alone
(written independently of the code under test)."""
from dataclasses import MISSING, is_dataclass
from typing import Union
import typing
from props.util import Obj


class Reject(Exception):
    "The document or override has to be refused."


class Node(object):
    "A struct: its class and the fields given."

    def __init__(self, cls, **fields):
        self.cls = cls
        self.fields = fields

    def copy(self):
        return Node(self.cls, **{k: copy(v) for k, v in self.fields.items()})


def copy(v):
    if isinstance(v, Node):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)([copy(x) for x in v])
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return v


def doc(v, version=None):
    "Config text pieces of a tree."
    if isinstance(v, Node):
        fs = [(k, doc(x, version)) for k, x in v.fields.items()]
        ver = version(v.cls) if version else None
        if ver is not None:
            fs.insert(0, ("version", ver))
        return Obj(v.cls.__name__, *fs)
    if isinstance(v, (list, tuple)):
        return type(v)([doc(x, version) for x in v])
    if isinstance(v, dict):
        return {k: doc(x, version) for k, x in v.items()}
    return v


def default(f):
    if f.default is not MISSING:
        return f.default
    if f.default_factory is not MISSING:
        return f.default_factory()
    return MISSING


def meaning(v):
    "The object a tree stands for."
    if isinstance(v, Node):
        kw = {}
        for n, f in v.cls.__dataclass_fields__.items():
            if n in v.fields:
                kw[n] = meaning(v.fields[n])
            else:
                d = default(f)
                if d is MISSING:
                    if not is_dataclass(f.type):
                        raise Reject("no value for " + n)
                    d = meaning(Node(f.type))
                kw[n] = d
        return v.cls(**kw)
    if isinstance(v, (list, tuple)):
        return type(v)([meaning(x) for x in v])
    if isinstance(v, dict):
        return {k: meaning(x) for k, x in v.items()}
    return v


def tree_of(obj):
    "The tree that mentions every field of an object."
    if is_dataclass(obj):
        return Node(type(obj), **{n: tree_of(getattr(obj, n)) for n in obj.__dataclass_fields__})
    if isinstance(obj, (list, tuple)):
        return type(obj)([tree_of(x) for x in obj])
    if isinstance(obj, dict):
        return {k: tree_of(x) for k, x in obj.items()}
    return obj


def optional(t):
    a = typing.get_args(t)
    return typing.get_origin(t) is Union and len(a) == 2 and a[1] is type(None)


def set_field(node, path, value):
    "Sets one field of a tree, by its dotted path."
    for seg in path[:-1]:
        f = node.cls.__dataclass_fields__[seg]
        t = typing.get_args(f.type)[0] if optional(f.type) else f.type
        child = node.fields.get(seg, MISSING)
        if child is MISSING:
            d = default(f)
            child = Node(t) if d is MISSING else tree_of(d)
        if child is None:
            child = Node(t)
        node.fields[seg] = child
        node = child
    node.fields[path[-1]] = value
