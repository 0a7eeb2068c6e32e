# all properties on the unchanged tree with a frozen checker
cp /tmp/chk /tmp/chk.all
for p in A01 A02 A03 A04 A05 T01 T02 T05 T06 T07 T08 T09 T10 T11 T13 T14 L01 U01 U02 I01 I02 I03 P01 D01 O01 O02 O03 O04 N01 $EXTRA; do timeout 800 /tmp/chk.all -property $p -root /tmp/ev2 2>&1 | tail -1 | cut -c1-150; done > /tmp/all.out 2>&1
echo done >> /tmp/all.out
