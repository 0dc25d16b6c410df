"""Run functions in a process that has imported the package but never used it.

A server is forked before the first use of the package; every request is executed in its own child of that
server, so nothing an earlier request did (caches, module state, matplotlib state) is visible to it.
"""
import os
import pickle
import struct
import sys
import traceback


class Server:
    def __init__(self, table):
        """table: {name: function(argument) -> picklable}"""
        self.table = table
        to_server, self.w = os.pipe()
        self.r, from_server = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            try:
                self._serve(to_server, from_server)
            finally:
                os._exit(0)
        os.close(to_server)
        os.close(from_server)

    @staticmethod
    def _read(fd):
        def exactly(n):
            chunks = []
            while n:
                chunk = os.read(fd, min(n, 1 << 20))
                if not chunk:
                    return None
                chunks.append(chunk)
                n -= len(chunk)
            return b"".join(chunks)
        head = exactly(8)
        return None if head is None else exactly(struct.unpack("<Q", head)[0])

    @staticmethod
    def _write(fd, data):
        data = struct.pack("<Q", len(data)) + data
        view = memoryview(data)
        while view:
            view = view[os.write(fd, view):]

    def _serve(self, r, w):
        while True:
            request = self._read(r)
            if request is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    name, argument = pickle.loads(request)
                    try:
                        answer = ("ok", self.table[name](argument))
                    except BaseException:
                        answer = ("error", traceback.format_exc()[-3000:])
                    self._write(w, pickle.dumps(answer))
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                self._write(w, pickle.dumps(("error", "the process ended with status %s" % status)))

    def call(self, name, argument):
        self._write(self.w, pickle.dumps((name, argument)))
        answer = self._read(self.r)
        if answer is None:
            return ("error", "the server ended")
        return pickle.loads(answer)


class Pool:
    """Several servers that work at the same time."""
    def __init__(self, table, count):
        self.servers = [Server(table) for _ in range(count)]

    def calls(self, requests):
        """Answers to (name, argument) pairs, in order."""
        import threading
        answers = [None] * len(requests)
        todo = list(range(len(requests)))[::-1]
        lock = threading.Lock()

        def work(server):
            while True:
                with lock:
                    if not todo:
                        return
                    index = todo.pop()
                answers[index] = server.call(*requests[index])

        threads = [threading.Thread(target=work, args=(s,)) for s in self.servers[:len(requests)]]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        return answers
