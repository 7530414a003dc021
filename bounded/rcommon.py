"""Shared by the reader contracts: a store in memory."""
import datetime
import io
import json
import logging
import lzma
import posixpath
import zipfile

import zstandard

from mabel.data import Reader
from mabel.data.readers.internals.base_inner_reader import BaseInnerReader

logging.disable(logging.CRITICAL)


def store(blobs):
    """(inner reader class over {path: bytes}, log of consulted folders, log of read blobs)"""
    looked, read = [], []

    class Mem(BaseInnerReader):
        def get_blobs_at_path(self, path):
            p = path.as_posix() if hasattr(path, "as_posix") else str(path)
            looked.append(p)
            return [b for b in blobs if b.startswith(p.rstrip("/") + "/")]

        def get_blob_bytes(self, blob):
            read.append(blob)
            return blobs[blob]

    return Mem, looked, read


def encode(fmt, recs, end=True, member="a"):
    lines = "\n".join(json.dumps(r) for r in recs) + ("\n" if end and recs else "")
    b = lines.encode()
    if fmt == "jsonl":
        return b
    if fmt == "zstd":
        return zstandard.compress(b)
    if fmt == "lzma":
        return lzma.compress(b)
    if fmt == "parquet":
        import pyarrow
        import pyarrow.parquet as pq

        o = io.BytesIO()
        pq.write_table(pyarrow.Table.from_pylist(recs), o)
        return o.getvalue()
    if fmt == "csv":
        import csv

        o = io.StringIO(newline="")
        w = csv.DictWriter(o, list(recs[0]) if recs else ["a"], lineterminator="\r\n" if end else "\n")
        w.writeheader()
        w.writerows(recs)
        return o.getvalue().encode()
    if fmt.startswith("zip+"):
        o = io.BytesIO()
        with zipfile.ZipFile(o, "w") as z:
            z.writestr(member + "." + fmt[4:], encode(fmt[4:], recs, end))
        return o.getvalue()
    raise ValueError(fmt)


def norm(p):
    return "/".join(x for x in posixpath.normpath(p).split("/") if x not in ("", "."))
