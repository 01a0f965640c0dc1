------------------------------- MODULE MCWide -------------------------------
EXTENDS Wide
AllFaults == {"none", "short", "sep", "ctl", "two"}
Few == {31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537}
More == UNION {{2^k - 2, 2^k - 1, 2^k, 2^k + 1, 2^k + 2} : k \in 4..16} \cup {100, 1000, 3000, 10000, 10001, 99999, 131072}
=============================================================================
