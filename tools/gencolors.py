#!/usr/bin/env python3
"""Writes spec/NamedColors.tla from the CSS color table of the npm package color-name
(an independent source; not from colosseum)."""
import json, subprocess, os
m = json.loads(subprocess.check_output(["node", "-e",
  'const c=require("/opt/veriftools/node/node_modules/color-name");console.log(JSON.stringify(c.default||c))']))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "NamedColors.tla")
L = ["---------------------------- MODULE NamedColors -----------------------------",
     "(* The CSS color names and their channels (generated by tools/gencolors.py from an   *)",
     "(* independent table of the CSS standard's named colors).                             *)",
     "EXTENDS Sequences, TLC", "",
     "NamedRGB ==", "  "]
rows = ['  "%s" :> <<%d, %d, %d>>' % (k, *v) for k, v in sorted(m.items())]
L[-1] = " @@\n".join(rows)
L += ["", "ColorNames == DOMAIN NamedRGB", "=" * 77, ""]
open(out, "w").write("\n".join(L))
