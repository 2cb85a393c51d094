"""A second interpreter with another string hash seed (sets iterate in another order there): it loads the same tree and
executes scenarios it is sent over a Unix socket, one forked child each.  It ends when its standard input closes."""
import os
import pickle
import socket
import struct
import subprocess
import sys
import threading


def send(s, data):
    s.sendall(struct.pack("!I", len(data)) + data)


def recv(s):
    def n(k):
        b = b""
        while len(b) < k:
            c = s.recv(k - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    return n(struct.unpack("!I", n(4))[0])


class Server:
    def __init__(self, prop, root, hashseed):
        self.path = os.path.join(root, ".hash%s.%d.sock" % (hashseed, os.getpid()))
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r, self.w = os.pipe()
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "dst.hashserver", prop, root, self.path], stdin=r, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=here, env=env)
        os.close(r)

    def wait(self):
        return self.p.stdout.readline().strip() == b"ready"

    def ask(self, msg):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(120)
        s.connect(self.path)
        send(s, pickle.dumps(msg))
        ok, v = pickle.loads(recv(s))
        s.close()
        if not ok:
            raise RuntimeError(v)
        return v


def main(prop, root, path):
    import importlib
    from . import overlay
    overlay.activate(root)
    world = importlib.import_module("dst.worlds." + prop.lower()).WORLD()
    world.root = os.path.join(root, "pystatsm") + os.sep
    world.serve()
    ls = socket.socket(socket.AF_UNIX)
    ls.bind(path)
    ls.listen(64)
    threading.Thread(target=lambda: (sys.stdin.buffer.read(), os._exit(0)), daemon=True).start()
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import signal
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = ls.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            ls.close()
            try:
                msg = pickle.loads(recv(c))
                try:
                    out = (True, world.answer(msg))
                except BaseException:
                    import traceback
                    out = (False, traceback.format_exc())
                send(c, pickle.dumps(out))
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    main(*sys.argv[1:])
