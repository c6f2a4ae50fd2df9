"""The nodes of documents are the user's own classes: all that colosseum asks of them is parent, children, style, intrinsic and
layout.  Half of the cases use nodes that are containers, with a length, so that a node without children is false."""
import zlib


class Plain:
    parent = None


class Container:
    parent = None

    def __len__(self):
        return len(self.children)

    def __iter__(self):
        return iter(self.children)


def kind(case):
    return Container if zlib.crc32(case["id"].encode()) & 1 else Plain
