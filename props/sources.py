"""Stream sources the harnesses feed to the code under test."""


class ListSource:
    """Delivers the given items in order, then None for ever."""

    @staticmethod
    def mixin(items, key=None, sleep=0.3):
        class Mixin:
            def __init__(self):
                self.items = list(items)
                self.pos = 0
                self.opened = self.closed_n = 0

            def open(self):
                self.pos = 0
                self.opened += 1

            def read(self):
                if self.pos < len(self.items):
                    self.pos += 1
                    return self.items[self.pos - 1]
                return None

            def close(self):
                self.closed_n += 1

            info = property(lambda self: dict(opened=self.opened))
            sleep_time_on_read_none_s = property(lambda self: sleep)

            def key(self, x):
                return x if key is None else key(x)

        return Mixin

    @classmethod
    def source_reader(cls, rt, items, key=None):
        return type('Src', (cls.mixin(items, key), rt.SourceReader), {})()

    @classmethod
    def stream_source(cls, rt, items, key=None):
        return type('Src', (cls.mixin(items, key), rt.pkg.stream_source.StreamSource), {})()
