import os
import pickle
import time


class Comm:
    """Reads its rank and size when asked, so that one process can play all ranks one after another."""
    def __init__(self):
        self._n = 0

    def Get_rank(self):
        return int(os.environ.get('VF_RANK', '0'))

    def Get_size(self):
        return int(os.environ.get('VF_SIZE', '1'))

    rank = property(Get_rank)
    size = property(Get_size)

    def _path(self, kind):
        self._n += 1
        return os.path.join(os.environ['VF_MPIDIR'], f'{kind}{self._n}')

    def _delay(self):
        time.sleep(float(os.environ.get('VF_DELAY', '0')))

    def _wait(self, p):
        t = time.time()
        while not os.path.exists(p):
            if time.time() - t > 200:
                os._exit(99)
            time.sleep(0.01)

    def bcast(self, obj=None, root=0):
        self._delay()
        p = self._path('bcast')
        if self.rank == root:
            with open(p + '.tmp', 'wb') as f:
                pickle.dump(obj, f)
            os.rename(p + '.tmp', p)
            return obj
        self._wait(p)
        with open(p, 'rb') as f:
            return pickle.load(f)

    def Barrier(self):
        p = self._path('barrier')
        open(f'{p}.{self.rank}', 'w').close()
        for r in range(self.size):
            self._wait(f'{p}.{r}')

    barrier = Barrier

    def gather(self, obj, root=0):
        p = self._path('gather')
        with open(f'{p}.{self.rank}.tmp', 'wb') as f:
            pickle.dump(obj, f)
        os.rename(f'{p}.{self.rank}.tmp', f'{p}.{self.rank}')
        if self.rank != root:
            return None
        out = []
        for r in range(self.size):
            self._wait(f'{p}.{r}')
            with open(f'{p}.{r}', 'rb') as f:
                out.append(pickle.load(f))
        return out

    def allgather(self, obj):
        return self.bcast(self.gather(obj))

    def scatter(self, objs=None, root=0):
        return self.bcast(objs, root)[self.rank]


COMM_WORLD = Comm()
