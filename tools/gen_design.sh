#!/bin/bash
# DESIGN.md = design_head.md + the table of planted bugs
cd "$(dirname "$0")" && { cat design_head.md; python3 design_tail.py; } > ../DESIGN.md
