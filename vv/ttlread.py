"""Turtle files below directories -> one graph.json per directory.

    /opt/venv/bin/python ttlread.py DIR...

graph.json: [[file, {subject: {predicate: [object, ...]}} or an error text], ...]; an object is {"u": uri},
{"v": text, "t": datatype, "l": language}, {"list": [object, ...]} or {"b": {predicate: [object, ...]}}.
"""
import json
import logging
import multiprocessing
import sys
from pathlib import Path

import rdflib
from rdflib import RDF, BNode, Literal, URIRef

rdflib.NORMALIZE_LITERALS = False
logging.disable(logging.CRITICAL)


def convert(d):
    res = []
    for f in sorted(Path(d).rglob("*.ttl")):
        rel = str(f.relative_to(d))
        try:
            g = rdflib.Graph().parse(data=f.read_text(encoding="utf-8"), format="turtle")
            res.append([rel, {str(s): props(g, s) for s in set(g.subjects()) if isinstance(s, URIRef)}])
        except Exception as e:
            res.append([rel, f"{type(e).__name__}: {e}"[:300]])
    (Path(d) / "graph.json").write_text(json.dumps(res))


def props(g, s):
    r = {}
    for p, o in g.predicate_objects(s):
        r.setdefault(str(p), []).append(obj(g, o))
    return r


def obj(g, o):
    if o == RDF.nil:
        return {"list": []}
    if isinstance(o, Literal):
        return {"v": str(o), "t": str(o.datatype or ""), "l": o.language or ""}
    if isinstance(o, BNode):
        if (o, RDF.first, None) in g:
            r = []
            while o != RDF.nil:
                r.append(obj(g, g.value(o, RDF.first)))
                o = g.value(o, RDF.rest)
            return {"list": r}
        return {"b": props(g, o)}
    return {"u": str(o)}


if __name__ == "__main__":
    with multiprocessing.Pool(8) as pool:
        pool.map(convert, sys.argv[1:], chunksize=4)
