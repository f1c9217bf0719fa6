"""Prints the table of planted bugs for DESIGN.md."""
import json, pathlib
print("| bug | property | needs |\n|---|---|---|")
for d in sorted((pathlib.Path(__file__).resolve().parent.parent / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['property']} | {m['needs']} |")
