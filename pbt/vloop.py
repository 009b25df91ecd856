"""An asyncio event loop on virtual time: time only passes when the harness advances it."""
import asyncio, selectors


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        super().__init__(selectors.SelectSelector())
        self.now = 1000.0
        self.errors = []
        self.set_exception_handler(lambda loop, context: self.errors.append(context))

    def time(self):
        return self.now

    def settle(self):
        """Run everything that is due at the present time."""
        for _ in range(10000):
            self.stop()
            self.run_forever()
            due = [h for h in self._scheduled if not h._cancelled and h._when <= self.now]
            if not self._ready and not due:
                return
        raise RuntimeError("the event loop does not come to rest")

    def advance_to(self, t):
        self.settle()
        while True:
            times = [h._when for h in self._scheduled if not h._cancelled]
            if not times or min(times) > t:
                break
            self.now = max(self.now, min(times))
            self.settle()
        self.now = t
        self.settle()
