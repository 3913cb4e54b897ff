#!/bin/bash
# Compile the TLC operator override once; everything else is interpreted.
set -e
cd "$(dirname "$0")"
h=$(sha1sum java/RealNum.java | cut -c1-12)
d=build/java-$h
mkdir -p "$d" evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/RealNum.java
