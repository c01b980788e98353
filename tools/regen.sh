#!/bin/bash
# regenerate the committed lists (not used by any check)
cd "$(dirname "$0")/.." && for f in mkprops mkfindings mkmanifest; do /opt/venv/bin/python tools/$f.py | tail -1; done
/opt/venv/bin/python tools/mkdesign.py
