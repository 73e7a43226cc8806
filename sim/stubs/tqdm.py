"""Stand-in for the progress bar package, which -verbose needs."""


class tqdm:
    def __init__(self, *args, **kw):
        pass

    def update(self, n=1):
        pass

    def close(self):
        pass
