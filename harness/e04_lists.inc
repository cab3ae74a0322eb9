// generated: argument lists of 1 to 124 names
#define E04_LISTS(X) \
X(a0) \
X(a0, a1) \
X(a0, a1, a4) \
X(a0, a1, a4, a9) \
X(a0, a1, a4, a9, a16) \
X(a0, a1, a4, a9, a16, a25) \
X(a0, a1, a4, a9, a16, a25, a36) \
X(a0, a1, a4, a9, a16, a25, a36, a49) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43) \
X(a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94, a50, a8, a65, a27, a88, a54, a22, a89, a61, a35, a11, a86, a66, a48, a32, a18, a6, a93, a85, a79, a75, a73, a73, a75, a79, a85, a93, a6, a18, a32, a48, a66, a86, a11, a35, a61, a89, a22, a54, a88, a27, a65, a8, a50, a94, a43, a91, a44, a96, a53, a12, a70, a33, a95, a62, a31, a2, a72, a47, a24, a3, a81, a64, a49, a36, a25, a16, a9, a4, a1, a0, a1, a4, a9, a16, a25, a36, a49, a64, a81, a3, a24, a47, a72, a2, a31, a62, a95, a33, a70, a12, a53, a96, a44, a91, a43, a94) \

