from contextlib import contextmanager


class Monitor:
    NONE = None

    def __init__(self):
        self.events = []
        self.cancelled = False

    @contextmanager
    def starting(self, label, total_work=None):
        self.start(label, total_work=total_work)
        try:
            yield self
        finally:
            self.done()

    def start(self, label, total_work=None):
        self.events.append(('start', label, total_work))

    def progress(self, work=None, msg=None):
        self.events.append(('progress', work, msg))

    def done(self):
        self.events.append(('done',))

    def child(self, work=1):
        return Monitor()

    def cancel(self):
        self.cancelled = True

    def is_cancelled(self):
        return self.cancelled


Monitor.NONE = Monitor()
