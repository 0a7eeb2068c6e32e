cp /tmp/chk /tmp/chk.regr; export CHK=/tmp/chk.regr MRP=/tmp/mrpr
for f in ${@:-l01 eq1 t09 t11 t11b m08 u i p01 t13 d01}; do echo "== $f"; python3 /tmp/mutp.py /tmp/$f.txt 2>&1 | grep -E "FALSE|MISSED" | cut -c1-160; done > /tmp/regr.out 2>&1
echo done >> /tmp/regr.out
