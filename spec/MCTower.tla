------------------------------ MODULE MCTower -------------------------------
EXTENDS Tower
AllWords == {<<"a">>, <<"o">>, <<"s">>, <<"t">>, <<"m">>, <<"a", "o">>, <<"o", "a">>, <<"s", "m">>, <<"a", "o", "t">>}
FewWords == {<<"a">>, <<"o">>, <<"a", "m">>}
Low == {8, 9, 16, 17, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
LowMore == 7..40 \cup {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513}
High == {511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 9998, 9999, 10000, 10001}
=============================================================================
