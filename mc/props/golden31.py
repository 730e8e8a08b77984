"""what the command lines of C31 in their plainest spelling give: (status, stdout, files written), read and confirmed by hand"""
G = [
    (0, b' CDX\tk\tv\na\t1\nc\t1\na\t2\nb\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\nc\t1\nc\t1\na\t1\na\t1\nb\t2\nb\t2\na\t2\na\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\na\tx\t1\nb\ty\t2\nc\ty\t1\nd\tx\t4\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'', (('out', None), ('u1', None), ('u2', None))),
    (0, b'', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tn\tk\tx\n1\ta\t2\n2\tb\t4\n30\tb\t60\n4\td\t8\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tg\tz\tn\na,x\ta/x\t1\nb,y\tb/y\t2\nb,z\tb/z\t30\nd,x\td/x\t4\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tk1\tk2\na\ta\ta\nb\tb\tb\nb\tb\tb\nd\td\td\na\ta\ta\nb\tb\tb\nb\tb\tb\nd\td\td\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'x,g,y,q\n2,1;a,1,-x-\n3,2;b,2,-y-\n31,30;b,30,-z-\n5,4;d,4,-x-\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\nb\ty\t2\nb\ty\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tfilename\tn2\tk\tv\tn\nA\t1\ta\tx\t1\nA\t4\td\tx\t4\nC\t2\tc\ty\t1\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tnum\tk\tv\tn\n5\ta\tx\t1\n\tb\ty\t2\n\tb\tz\t30\n\tb\tx\t2\n6\tc\ty\t1\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\tnumber\nb\ty\t2\t1\nc\ty\t1\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tnumber\tk\tv\tn\n1\ta\tx\t1\n\tb\ty\t2\n2\tb\tz\t30\n3\td\tx\t4\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tm\tk\tv\n5\tb\ty\n5\tb\tz\n7\td\tx\n', (('out', None), ('u1', b' CDX\tk\tv\tn\na\tx\t1\n'), ('u2', b' CDX\tk\tw\tm\nc\tr\t6\n'))),
    (0, b' CDX\tk\tw\tm\nc\tr\t6\n', (('out', b' CDX\tk\tv\tn\tw\tm\nb\ty\t2\tq\t5\nb\tz\t30\tq\t5\nd\tx\t4\ts\t7\n'), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\tk1\tv1\tn1\na\tx\t1\tb\tx\t2\nb\ty\t2\tc\ty\t1\nb\tz\t30\tzz\tzz\tzz\nd\tx\t4\tzz\tzz\tzz\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\tk2\tv2\tn2\na\tx\t1\tb\tx\t2\nb\ty\t2\tc\ty\t1\nb\tz\t30\tc\ty\t1\nd\tx\t4\tc\ty\t1\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tw\tm\tk\tv\tn\nb\tq\t5\tb\tx\t2\nc\tr\t6\tc\ty\t1\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\nb\ty\t2\nb\ty\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\na\tx\t1\nb\tz\t30\nb\tx\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\na\tx\t1\nd\tx\t4\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\ta\tb\nv\tx\ty\nn\t1\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'   A   \nk v n \na x 1 \nb y 2 \nb z 30\nd x 4 \n-------\n  B   \nk w m\nb q 5\nc r 6\nd s 7\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\tcnt\na\tx\t1\t1\nb\ty,z\t32\t2\nd\tx\t4\t1\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tp\tq\tk\tv\tn\tr\n1\t1\ta\tx\t1\tx\n30\t2\tb\ty\t2\t\n4\t1\td\tx\t4\tx\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tcnt\tk\tv\tn\n1\ta\tx\t1\n2\tb\tz\t30\n1\td\tx\t4\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'', (('out', None), ('u1', None), ('u2', None))),
    (1, b'', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tfile\tlines\tbytes\twords\tchars\nA\t4\t25\t12\t25\nB\t3\t18\t9\t18\ntotals\t7\t43\t21\t43\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tnm\tq\tbytes\nA\t4\t25\nB\t3\t18\ntotals\t7\t43\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'2.4e1\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tc1\tc2\tc3\tc4\n1_1\t0\t0\t\n2_1\t1\t1\t\n3_1\t2\t2\t\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tf\tk\tv\tn\nA\tb\ty\t2\nA\tb\tz\t30\nA\td\tx\t4\nC\tb\tx\t2\nC\tc\ty\t1\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b' CDX\tk\tv\tn\nb\ty\t2\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'2e0\n6e0\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'b|a\nb|c\ne|d\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'd;e;3\n', (('out', None), ('u1', None), ('u2', None))),
    (0, b'a;b;1;2\nd;e;3;1\n', (('out', None), ('u1', None), ('u2', None))),
]
