#!/bin/bash
# builds the engine, the MIR of the pallets and the native harnesses, group by group
cd "$(dirname "$0")" && exec python3 setup.py
