"""Rewrites the per-property paragraphs of DESIGN.md from properties.jsonl and notes.py."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from notes import NOTES  # noqa: E402

path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    tech, how = NOTES[p["id"]]
    new = f"**{p['id']} {p['title']}.**  {tech}.  {how}"
    text, k = re.subn(rf"(?m)^\*\*{p['id']} .*$", lambda m: new, text)
    assert k == 1, p["id"]
open(path, "w").write(text)
