#!/bin/bash
# Compiles the accelerator of spec/Rat.tla and has TLC compare it with the definitions.
set -e
cd "$(dirname "$0")"
JAR=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p build/java
javac -cp $JAR -d build/java java/tlc2/module/Rat.java
D=$(mktemp -d)
cd spec
java -XX:+UseParallelGC -cp ../build/java:$JAR tlc2.TLC -workers 8 -noGenerateSpecTE -metadir "$D" -config RatSelfTest.cfg RatSelfTest.tla > "$D/log" || { tail -20 "$D/log"; exit 1; }
grep "distinct states" "$D/log"
rm -rf "$D"
