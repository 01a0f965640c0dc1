----------------------------- MODULE MCEnumText -----------------------------
EXTENDS EnumText
\* structure; numbers; strings; literals
Structure == {91, 93, 123, 125, 44, 58, 34, 49, 32}
Numbers == {45, 48, 49, 46, 101, 43, 32}
Strings == {34, 92, 117, 48, 1, 255}
Literals == {116, 114, 117, 101, 110, 108, 102, 97, 115, 32}
AlphasQuick == {<<Structure, 6>>, <<Numbers, 6>>, <<Strings, 6>>, <<Literals, 7>>}
AlphasThorough == {<<Structure, 7>>, <<Numbers, 7>>, <<Strings, 8>>, <<Literals, 9>>}
=============================================================================
