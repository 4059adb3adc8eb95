#!/bin/sh
# tlc.sh <module.tla> [tlc options]: run TLC on a module of /verif/spec with the overrides of java/
here=$(cd "$(dirname "$0")" && pwd)
T=/opt/veriftools/tla
mkdir -p "$here/build/classes"
if [ ! -f "$here/build/classes/BigNum.class" ] || [ "$here/java/BigNum.java" -nt "$here/build/classes/BigNum.class" ]; then
  javac -cp $T/tla2tools.jar -d "$here/build/classes" "$here/java/BigNum.java" || exit 2
fi
cd "$here/spec" || exit 2
exec java ${TLC_JAVA_OPTS:--Xss64m -Xmx6g -XX:+UseParallelGC} -cp "$here/build/classes:$T/tla2tools.jar:$T/CommunityModules-deps.jar" -DTLA-Library="$here/spec" tlc2.TLC "$@"
