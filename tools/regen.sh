#!/bin/bash
cd /verif; python3 tools/mkprops.py; python3 tools/mkmanifest.py; python3 tools/mkdesign.py
