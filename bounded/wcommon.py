"""Shared by the writer contracts: a store in memory that refuses chosen commits."""
import io
import json
import logging
import os
import sys

import pyarrow.parquet as pq
import zstandard
from orso.schema import RelationSchema

from mabel.data.writers.internals.base_inner_writer import BaseInnerWriter

logging.disable(logging.CRITICAL)
COLS = [{"name": "i", "type": "INTEGER"}, {"name": "s", "type": "VARCHAR"}, {"name": "f", "type": "DOUBLE"}, {"name": "b", "type": "BOOLEAN"}]


def schema():
    return RelationSchema.from_dict({"name": "t", "columns": [dict(c) for c in COLS]})


class Refused(Exception):
    pass


# a store can fail with anything
REFUSALS = [Refused] + [type("Refused" + e.__name__, (Refused, e), {}) for e in (OSError, TimeoutError, ValueError, KeyError, ConnectionError, RuntimeError, TypeError, AttributeError, IndexError, FileNotFoundError)]


def refusal(*of):
    return REFUSALS[sum(of) % len(REFUSALS)]


def store(fail=(), salt=()):
    """(class of inner writers, shared log of (name, bytes)); the commits numbered in fail are refused"""

    class Inner(BaseInnerWriter):
        log = []
        tries = []
        refuse = set(fail)

        def commit(self, byte_data, override_blob_name=None):
            n = len(Inner.tries)
            Inner.tries.append(override_blob_name)
            if n in Inner.refuse:
                raise refusal(n, *fail, *salt)(f"commit {n}")
            name = override_blob_name or self._build_path()
            Inner.log.append((name, bytes(byte_data)))
            return name

    return Inner


def decode(fmt, data):
    if fmt == "parquet":
        return pq.read_table(io.BytesIO(data)).to_pylist()
    if fmt == "zstd":
        data = zstandard.decompress(data, max_output_size=1 << 28)
    lines = data.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    else:
        raise ValueError("the last line has no end")
    if fmt == "text":
        return [x.decode() for x in lines]
    return [json.loads(x) for x in lines]


TEXTS = ["", "a", "é", "line\nbreak", 'quo"te', "x" * 40, "{mm}", "comma,", "\\", "a\tb", "0", "None"]


def record(rng, i, nulls=True):
    r = {"i": i, "s": rng.choice(TEXTS), "f": rng.choice([0.0, 1.5, -2.25, 1e9]), "b": rng.random() < 0.5}
    if nulls and rng.random() < 0.3:
        r[rng.choice("sfb")] = None
    return r
