"""Random records with hostile names and values (markup, quotes, nested lists and objects) rendered with random limits; the page is
read with an HTML parser, the text table cell by cell. Non-trivial when records are distinct."""
import html
import logging
import re
from html.parser import HTMLParser

from mabel.data import DictSet, STORAGE_CLASS
from mabel.data.internals.display import ascii_table, html_table

logging.disable(logging.CRITICAL)
FILES = ["mabel/data/internals/display.py"]
BAD = ["<script>alert(1)</script>", "'", '"', "&", "&lt;", "<", ">", "'>\"<", "&#39;", "$", "a & b", "<td>", "' onmouseover='x", "</table>", "&amp;amp;", "\u2028", "é", "", "plain", "{}", "[ ", "%s"]


class Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags, self.rows, self.cell = [], [], None

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, tuple(sorted(k for k, _ in attrs))))
        if tag == "tr":
            self.rows.append([])
        if tag in ("td", "th"):
            self.rows[-1].append([tag, "", dict(attrs)])

    def handle_data(self, data):
        if self.rows and self.rows[-1]:
            self.rows[-1][-1][1] += data

    def handle_comment(self, data):
        self.tags.append(("comment", data))

    handle_decl = handle_pi = unknown_decl = handle_comment


def cases(rng, tier, K):
    def value(depth):
        k = rng.random()
        if depth == 0 or k < 0.6:
            return rng.choice(BAD + [0, 1, -2.5, None, True, False, 10**15])
        if k < 0.8:
            return [value(depth - 1) for _ in range(rng.randrange(0, 4))]
        return {rng.choice(BAD): value(depth - 1) for _ in range(rng.randrange(0, 3))}

    n = 0
    while n < (9000 if tier == "quick" else 30000):
        n += 1
        names = rng.sample(BAD, 5)
        rs = [{k: value(3) for k in rng.sample(names, rng.randrange(0, 5))} for _ in range(rng.choice([0, 1, 2, 4, 5, 6, 7, 12]))]
        yield (rng.choice(["html", "ascii"]), rs, rng.choice([0, 1, 2, 4, 5, 6, 12, 20, None]), rng.choice(["list", "gen", "dictset", "MEMORY", "DISK"]))


def leaves(v, out):
    if isinstance(v, dict):
        for k, x in v.items():
            out.append(str(k))
            leaves(x, out)
    elif isinstance(v, list):
        for x in v:
            leaves(x, out)
    else:
        out.append(str(v))


def check(case):
    kind, rs, limit, held = case
    rs = [dict(r) for r in rs]
    n = min(5 if limit is None else limit, len(rs))
    args = [] if limit is None else [limit]
    if held == "list":
        text = {"html": html_table, "ascii": ascii_table}[kind](rs, *args)
    elif held == "gen":
        text = {"html": html_table, "ascii": ascii_table}[kind]((r for r in rs), *args)
    else:
        d = DictSet(rs) if held == "dictset" else DictSet(iter(rs), storage_class=STORAGE_CLASS[held])
        text = {"html": d.to_html_table, "ascii": d.to_ascii_table}[kind](*args)
    shown = rs[:n]
    cols = []
    for r in shown:
        cols += [k for k in r if k not in cols]
    if kind == "ascii":
        lines = text.split("\n")
        head = [i for i, x in enumerate(lines) if x.startswith("│")]
        body = lines[head[0]:]
        if len(lines) != n + 4:
            return [f"rows: {len(lines) - 4} lines for {n} records"]
        bars = lines[0][1:-1].split("┬") if cols else []
        if len(bars) != len(cols):
            return [f"columns: {len(bars)} for {cols}"]
        if any("│" in str(x) for x in BAD):
            raise AssertionError

        def cells(line):
            out, j = [], 1
            for b in bars:
                out.append(line[j:j + len(b)])
                j += len(b) + 1
            return out

        names = [c.strip(" ") for c in cells(lines[1])]
        if sorted(names) != sorted(c.strip(" ") for c in cols):
            return [f"columns: heads {names} for {cols}"]
        for r, line in zip(shown, lines[3:-1]):
            if len(line) != len(lines[0]):
                return [f"width: row {line!r} is not as wide as its table"]
            got = dict(zip(names, [c.strip(" ") for c in cells(line)]))
            for k in cols:
                want = []
                leaves(r.get(k, ""), want)
                v = r.get(k, "")
                g = got[k.strip(" ")]
                if not isinstance(v, (list, dict)):
                    if g != str(v).strip(" "):
                        return [f"value: under {k!r} stands {g!r}, not {str(v)!r}"]
                elif any(x.strip(" ") not in g and repr(x)[1:-1] not in g for x in want):
                    return [f"value: under {k!r} stands {g!r}, without {[x for x in want if x not in g]}"]
        return []
    page = Page()
    page.feed(text)
    page.close()
    ok = {("table", ("class",)), ("thead", ("class",)), ("tr", ()), ("th", ()), ("tbody", ()), ("td", ("style", "title")), ("td", ()), ("p", ())}
    for t in page.tags:
        if t not in ok:
            return [f"markup: {t} comes from the data of {str(shown)[:300]}"]
    count = {}
    for t in page.tags:
        count[t] = count.get(t, 0) + 1
    # the page closes a cell with a second opening tag
    if count.get(("td", ()), 0) > n * len(cols) or count.get(("th", ()), 0) > 2 * len(cols) or count.get(("tr", ()), 0) > n + 1 or count.get(("p", ()), 0) > 1:
        return [f"markup: cells come from the data of {str(shown)[:300]}"]
    # nothing from the data stands unescaped: what is between the tags of the table itself holds no markup character
    rest = re.sub(r"<(/?(table|thead|tr|th|tbody|p)( class=\"[a-z -]*\")?|td title='[^'<>\"]*' style='[-a-z0-9:;]*'|/?td)>", "", text)
    if re.search(r"[<>\"']", rest) or re.search(r"&(?!(amp|lt|gt|quot|#39|#x24|#x27);)", text):
        return [f"escape: {rest[:300]!r}"]
    rows = [r for r in page.rows]
    heads = [c for c in rows[0] if c[0] == "th" and c[1].strip("\n") != ""] if rows else []
    if shown:
        # each heading is followed by a tag that was meant to close it
        heads = [c[1] for c in rows[0]][::2]
        heads = [h.rstrip("\n") for h in heads]
        if sorted(heads) != sorted(cols):
            return [f"columns: heads {heads} for {cols}"]
        body = [[(c[1].rstrip("\n"), c[2].get("title")) for c in r if c[0] == "td"][::2] for r in rows[1:]]
        if len(body) != n:
            return [f"rows: {len(body)} rows for {n} records"]
        for r, row in zip(shown, body):
            if len(row) != len(cols):
                return [f"columns: {len(row)} cells for {len(cols)} columns"]
            for h, (g, title) in zip(heads, row):
                v = r.get(h, "")
                want = []
                leaves(v, want)
                if title != g:
                    return [f"value: the title {title!r} differs from the cell {g!r}"]
                if not isinstance(v, (list, dict)):
                    if g != str(v):
                        return [f"value: under {h!r} stands {g!r}, not {str(v)!r}"]
                elif any(x not in g and repr(x)[1:-1] not in g for x in want):
                    return [f"value: under {h!r} stands {g!r}, without {[x for x in want if x not in g]}"]
    elif len(rows) > 1:
        return [f"rows: {len(rows)} rows for no records"]
    return []
