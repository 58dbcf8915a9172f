#!/bin/bash
# Compiles the operator overrides of the specification and checks them against its text (SelfCheck).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
jars=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p "$here/.build/classes"
stamp="$here/.build/stamp"
sum="$(cat "$here"/java/*.java "$here"/spec/{Num,Mat,Poly,SelfCheck}.tla | sha1sum)"
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$sum" ]; then
    javac -Xlint:-serial -cp /opt/veriftools/tla/tla2tools.jar -d "$here/.build/classes" "$here"/java/*.java
    self="$(mktemp -d)"
    cp "$here"/spec/{Num,Mat,Poly,SelfCheck}.tla "$here"/spec/SelfCheck.cfg "$self"
    for m in Num Mat Poly; do
        sed -e "s/MODULE $m /MODULE Ref$m /" -e 's/EXTENDS Num/EXTENDS RefNum/' "$here/spec/$m.tla" > "$self/Ref$m.tla"
    done
    if ! (cd "$self" && java -XX:+UseParallelGC -Xss64m -Djava.io.tmpdir="$self" -cp "$here/.build/classes:$jars" tlc2.TLC \
          -workers 4 -metadir "$self" -noGenerateSpecTE -config SelfCheck.cfg SelfCheck.tla > "$self/log"); then
        cat "$self/log" >&2
        rm -rf "$self"
        exit 2
    fi
    rm -rf "$self"
    echo "$sum" > "$stamp"
fi
