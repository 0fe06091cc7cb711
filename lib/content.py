"""Reads the stored content without noWorkflow's code"""
import os
import subprocess
import zlib


def read(base, digest):
    """bytes stored under the digest in base/.noworkflow, or None"""
    root = os.path.join(base, ".noworkflow")
    if not digest:
        return None
    path = os.path.join(root, "content", digest[:2], digest[2:])
    if os.path.isfile(path):
        with open(path, "rb") as fil:
            return fil.read()
    git = os.path.join(root, "content.git")
    if os.path.isdir(git):
        loose = os.path.join(git, "objects", digest[:2], digest[2:])
        if os.path.isfile(loose):
            with open(loose, "rb") as fil:
                try:
                    data = zlib.decompress(fil.read())
                except zlib.error:
                    return None
            head, _, body = data.partition(b"\0")
            return body if head == b"blob %d" % len(body) else None
        proc = subprocess.run(["git", "--git-dir", git, "cat-file", "blob", digest], capture_output=True)
        if proc.returncode == 0:
            return proc.stdout
    return None


def digests(base):
    """All digests of blobs stored in base/.noworkflow"""
    root = os.path.join(base, ".noworkflow")
    res = set()
    for dirname, _, files in os.walk(os.path.join(root, "content")):
        for f in files:
            if len(os.path.basename(dirname)) == 2:
                res.add(os.path.basename(dirname) + f)
    git = os.path.join(root, "content.git")
    if os.path.isdir(git):
        proc = subprocess.run(["git", "--git-dir", git, "cat-file", "--batch-check", "--batch-all-objects"], capture_output=True)
        for line in proc.stdout.decode().split("\n"):
            p = line.split()
            if len(p) == 3 and p[1] == "blob":
                res.add(p[0])
    return res


def check_store(base):
    """Problems of the content store itself: contents that do not match their identifier"""
    import hashlib
    out = []
    root = os.path.join(base, ".noworkflow", "content")
    n = 0
    for dirname, _, files in os.walk(root):
        for f in files:
            d = os.path.basename(dirname)
            if len(d) != 2:
                continue
            n += 1
            with open(os.path.join(dirname, f), "rb") as fil:
                if hashlib.sha1(fil.read()).hexdigest() != d + f:
                    out.append("content %s does not match its digest" % (d + f))
    git = os.path.join(base, ".noworkflow", "content.git")
    if os.path.isdir(git):
        proc = subprocess.run(["git", "--git-dir", git, "fsck", "--full", "--no-dangling"], capture_output=True)
        if proc.returncode:
            out.append("git fsck: " + (proc.stdout + proc.stderr).decode("utf-8", "replace")[-300:])
        n += 1
    return out, n
