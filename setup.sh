#!/bin/bash
# Unpacks the Hypothesis wheel (offline wheelhouse) into /verif/.deps for the engine's own interpreter.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python vlib/deps.py
