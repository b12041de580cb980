#!/bin/bash
# Builds the exploration engine into /verif/build (offline, a few seconds).
set -e
cd "$(dirname "$0")"
export JAVA_HOME=/usr/lib/jvm/java-21-openjdk-amd64
A=/opt/veriftools/java/bytecode
LOG=/root/.m2/repository/org/apache/logging/log4j/log4j-api/2.24.3/log4j-api-2.24.3.jar
rm -rf build/engine.tmp.$$
mkdir -p build/engine.tmp.$$
"$JAVA_HOME/bin/javac" -nowarn -g --add-exports java.base/jdk.internal.vm=ALL-UNNAMED \
  -cp "$A/asm-9.7.1.jar:$A/asm-tree-9.7.1.jar:$LOG" -d build/engine.tmp.$$ engine/src/mc/*.java
cat engine/src/mc/*.java build.sh | sha256sum > build/engine.tmp.$$/stamp
rm -rf build/engine
mv build/engine.tmp.$$ build/engine
