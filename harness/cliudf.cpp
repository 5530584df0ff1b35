// User-defined constraints linked into the monitored program (externalFunctions is the user's to supply).
double constraintFunction0(double* x) { return 2 * x[0] + 1; }
double constraintFunction1(double* x) { return 1 - x[0]; }
double constraintFunction2(double* x) { return x[0] * x[0]; }
double constraintFunction3(double* x) { return 3 * x[0] - 2; }
