"""Archives built from JSON models, and an HTTP server on the loopback address that serves scripted responses."""

from __future__ import annotations

import io
import os
import tarfile
import threading
import zipfile
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from typing import Any

os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1"

KINDS = ["tar", "tar.gz", "tar.bz2", "tar.xz", "zip"]
FAILURES = ["404", "garbage", "empty", "reset", "short", "truncated"]


def archive(kind: str, members: list[list[str]]) -> bytes:
    """An archive of text files. The bytes depend on nothing but the arguments."""
    out = io.BytesIO()
    if kind == "zip":
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            for name, content in members:
                z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), content.encode())
        return out.getvalue()
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as t:
        for name, content in members:
            info = tarfile.TarInfo(name)
            data = content.encode()
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
    data = raw.getvalue()
    if kind == "tar":
        return data
    import bz2
    import gzip
    import lzma

    return {"tar.gz": lambda d: gzip.compress(d, mtime=0), "tar.bz2": bz2.compress, "tar.xz": lzma.compress}[kind](data)


class Server:
    """Serves `script[path]`, a list of responses of which the last one repeats. Responses are ["ok", bytes] or [failure, bytes]."""

    def __init__(self) -> None:
        self.script: dict[str, list[list[Any]]] = {}
        self.requests: list[str] = []
        self.lock = threading.Lock()
        outer = self

        class Handler(BaseHTTPRequestHandler):
            def do_GET(self) -> None:  # pylint: disable=invalid-name
                with outer.lock:
                    outer.requests.append(self.path)
                    steps = outer.script.get(self.path)
                    if not steps:
                        kind, data = "404", b""
                    else:
                        kind, data = steps.pop(0) if len(steps) > 1 else steps[0]
                if kind == "reset":
                    self.close_connection = True
                    self.connection.close()
                    return
                if kind == "redirect":
                    self.send_response(302)
                    self.send_header("Location", data.decode())
                    self.send_header("Content-Length", "0")
                    self.end_headers()
                    return
                body = data
                if kind == "404":
                    body = b"<html>not found</html>"
                elif kind == "garbage":
                    body = b"this is no archive\n" * 100
                elif kind == "empty":
                    body = b""
                elif kind in ("short", "truncated"):
                    # (the beginning of a tar file that ends between two members is a tar file)
                    body = data[: min(700, max(1, len(data) // 3))]
                self.send_response(404 if kind == "404" else 200)
                self.send_header("Content-Type", "application/octet-stream")
                if kind == "short":
                    self.send_header("Content-Length", str(len(data)))
                elif kind != "truncated":
                    self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                try:
                    self.wfile.write(body)
                except OSError:
                    pass

            def log_message(self, *_: Any) -> None:
                pass

            def log_error(self, *_: Any) -> None:
                pass

        class Quiet(ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, request: Any, client_address: Any) -> None:
                pass

        self.httpd = Quiet(("127.0.0.1", 0), Handler)
        self.base = f"http://127.0.0.1:{self.httpd.server_address[1]}"
        threading.Thread(target=self.httpd.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()

    def load(self, script: dict[str, list[list[Any]]]) -> None:
        with self.lock:
            self.script = {k: [list(r) for r in v] for k, v in script.items()}
            self.requests = []


_servers: dict[int, Server] = {}


def server() -> Server:
    """The server of this process."""
    if os.getpid() not in _servers:
        _servers.clear()
        _servers[os.getpid()] = Server()
    return _servers[os.getpid()]
