pragma circom 2.0.0;
template XOR() {
    signal input a;
    signal input b;
    signal output out;
    out <== a + b - 2 * a * b;
}
template AND() {
    signal input a;
    signal input b;
    signal output out;
    out <== a * b;
}
template OR() {
    signal input a;
    signal input b;
    signal output out;
    out <== a + b - a * b;
}
template NOT() {
    signal input in;
    signal output out;
    out <== 1 + in - 2 * in;
}
template NAND() {
    signal input a;
    signal input b;
    signal output out;
    out <== 1 - a * b;
}
template NOR() {
    signal input a;
    signal input b;
    signal output out;
    out <== a * b + 1 - a - b;
}
template MultiAND(n) {
    signal input in[n];
    signal output out;
    signal acc[n + 1];
    acc[0] <== 1;
    for (var i = 0; i < n; i++) {
        acc[i + 1] <== acc[i] * in[i];
    }
    out <== acc[n];
}
