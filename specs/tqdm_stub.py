"""What the documentation of tqdm says about iteration."""


class tqdm(object):

    def __init__(self, iterable=None, desc=None, total=None, leave=True, file=None, ncols=None, mininterval=0.1, maxinterval=10.0, miniters=None,
                 ascii=None, disable=False, unit='it', unit_scale=False, dynamic_ncols=False, smoothing=0.3, bar_format=None, initial=0):
        self.iterable = iterable
        self.disable = disable
        self.total = total
        self.n = initial

    def __iter__(self):
        for obj in self.iterable:
            yield obj

    def __len__(self):
        return len(self.iterable)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def update(self, n=1):
        if not self.disable:
            self.n += n

    def close(self):
        pass
