"""HTTP server for the download checks: serves the files of a directory in
awkward ways, as the query of the URL says, and logs each request."""

import gzip
import http.server
import json
import os
import sys
import threading
import time
import urllib.parse

ROOT, LOG = sys.argv[1], sys.argv[2]


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *args):
        pass

    def do_GET(self):
        url = urllib.parse.urlsplit(self.path)
        q = dict(urllib.parse.parse_qsl(url.query))
        with open(os.path.join(LOG, q.get("case", "none")), "a", encoding="utf-8") as f:
            f.write(json.dumps({"path": self.path, "headers": dict(self.headers)}) + "\n")
        status = int(q.get("status", 200))
        self.close_connection = True
        if "redirect" in q and "again" not in q:
            self.send_response(302)
            self.send_header("Location", self.path + "&again=1")
            self.send_header("Content-Length", "0")
            self.send_header("Connection", "close")
            self.end_headers()
            return
        try:
            with open(os.path.join(ROOT, q["file"]), "rb") as f:
                body = f.read()
        except (KeyError, OSError):
            body, status = b"not here", 404
        self.send_response(status)
        self.send_header("Connection", "close")
        self.send_header("Content-Type", q.get("type", "application/pdf"))
        how = q.get("how", "plain")
        if how == "gzip":
            body = gzip.compress(body)
            self.send_header("Content-Encoding", "gzip")
        if how == "chunked" or how == "broken-chunks":
            self.send_header("Transfer-Encoding", "chunked")
            self.end_headers()
            size = int(q.get("size", 1000))
            for k in range(0, len(body), size):
                part = body[k:k + size]
                self.wfile.write(b"%x\r\n" % len(part) + part + b"\r\n")
                if how == "broken-chunks" and k + size >= len(body) // 2:
                    self.wfile.write(b"zz\r\n")
                    return
            self.wfile.write(b"0\r\n\r\n")
            return
        if how == "no-length":
            self.end_headers()
            self.wfile.write(body)
            return
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        if how == "cut":
            self.wfile.write(body[: len(body) // 2])
            return
        if how == "slow":
            for k in range(0, len(body), max(1, len(body) // 4)):
                self.wfile.write(body[k:k + max(1, len(body) // 4)])
                self.wfile.flush()
                time.sleep(0.01)
            return
        self.wfile.write(body)


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 128

    def handle_error(self, request, client_address):
        pass


def main():
    server = Server(("127.0.0.1", 0), Handler)
    print(server.server_address[1], flush=True)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    sys.stdin.read()  # until the check ends
    os._exit(0)


if __name__ == "__main__":
    main()
