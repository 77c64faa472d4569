#!/bin/sh
# usage: sym.sh BINARY < text: appends source positions for pc=0x... and plain code addresses
b=$1
while IFS= read -r l; do
  echo "$l"
  for a in $(printf '%s\n' "$l" | grep -oE '(pc=)?0x4[0-9a-f]{5}\b' | sed 's/pc=//' | sort -u); do
    echo "    $a: $(addr2line -e $b -f -C -i -p $a 2>/dev/null | sed 's/^/ /' | tr '\n' ';' | cut -c1-600)"
  done
done
