"""Regenerates spec/fields.json (data members per class) from the unchanged tree."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../engine"))
import load as L
if os.path.exists(L.FIELDS):
    os.remove(L.FIELDS)
t = L.field_table(L.load())
json.dump(t, open(L.FIELDS, "w"), indent=0, sort_keys=True)
print(len(t), "classes")
