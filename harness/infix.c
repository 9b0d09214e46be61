/* Infix calculator for array dimensions. */
//@property S12
//@sources src/utils/infixcalc.c
//@entry h_eval#flat1 unwind=18 PAREN=0 MASK=3 LO=0 HI=5 objbits=12 PRINTF_BRIEF=1 cost=2 unwindset=binary_eval.0:8,ap.0:10 /thorough MASK=31
//@entry h_eval#flat2 unwind=18 PAREN=0 MASK=3 LO=5 HI=8 objbits=12 PRINTF_BRIEF=1 cost=2 unwindset=binary_eval.0:8,ap.0:10 /thorough MASK=31
//@entry h_eval#flat3 unwind=18 PAREN=0 MASK=3 LO=8 HI=11 objbits=12 PRINTF_BRIEF=1 cost=2 unwindset=binary_eval.0:8,ap.0:10 /thorough MASK=31
//@entry h_eval#left unwind=18 PAREN=1 MASK=3 LO=5 HI=8 objbits=12 PRINTF_BRIEF=1 cost=2 unwindset=binary_eval.0:8,ap.0:10 /thorough MASK=31 LO=0 HI=11
//@entry h_eval#right unwind=18 PAREN=2 MASK=3 LO=7 HI=10 objbits=12 PRINTF_BRIEF=1 cost=2 unwindset=binary_eval.0:8,ap.0:10 /thorough MASK=31 LO=0 HI=11
//@entry h_any unwind=18 cost=2 objbits=12 PRINTF_BRIEF=1 unwindset=binary_eval.0:9,h_any.0:126,h_any.1:126,h_any.2:126,h_any.3:126,h_any.4:126
//@entry h_depend unwind=10 N=5
//@bound all 121 operator pairs x {no parentheses, (a o b) o c, a o (b o c)} for every value of three variables in -MASK..MASK (the first) and 0..MASK; every sequence of three tokens out of M + / ( ) for error handling; names in expressions of N bytes
#include "vh.h"
#include <limits.h>
#include "infixcalc.h"
#ifndef N
#define N 5
#endif
static int prec(char o)
{ switch (o) { case '|': return 1; case '&': return 2; case '=': return 3; case '!': return 4;
  case '>': case '<': return 5; case '+': case '-': return 6; case '*': case '/': case '%': return 7; default: return 8; } }
static int bad;
static int ap(char o, int a, int b)
{ int v = 1, i;
  switch (o) { case '|': return a || b; case '&': return a && b; case '=': return a == b; case '!': return a != b;
  case '>': return a > b; case '<': return a < b; case '+': return a + b; case '-': return a - b;
  case '*': return a * b;
  case '/': if (b == 0) { bad = 1; return 0; } return a / b;
  case '%': if (b == 0) { bad = 1; return 0; } return a % b;
  default: for (i=0; i<9; i++) if (i < b) v *= a; return v; } }
#ifndef PAREN
#define PAREN 0
#define LO 0
#define HI 11
#define MASK 7
#endif
static const char ops[] = "|&=!><+-*/%";
static int val(void) { int v = nd_u8() & MASK; return nd_u8() & 1 ? -v : v; }
void h_eval(void)
{
  char e[20], err[8];
  int x[3], i, j, k = nd_range(0, 120), v, ref;
  static const char *const names[] = {"M", "NM", "_1"};
  InfixCalcVariable vars[3];
  for (i=0; i<3; i++) { vars[i].name = names[i]; vars[i].value = x[i] = i ? nd_u8() & MASK : val(); }
  bad = 0;
  for (i=0; i<11; i++) for (j=0; j<11; j++) {
    int n = 0;
    if (i < LO || i >= HI || k != i*11 + j) continue;
    if (PAREN == 1) e[n++] = '(';
    e[n++] = 'M'; e[n++] = ' '; e[n++] = ops[i];
    if (PAREN == 2) e[n++] = '(';
    e[n++] = 'N'; e[n++] = 'M';
    if (PAREN == 1) e[n++] = ')';
    e[n++] = ops[j]; e[n++] = '_'; e[n++] = '1';
    if (PAREN == 2) e[n++] = ')';
    e[n] = 0;
    /* by precedence, left to right */
    if (PAREN == 2 || (PAREN == 0 && prec(ops[j]) > prec(ops[i]))) ref = ap(ops[i], x[0], ap(ops[j], x[1], x[2]));
    else ref = ap(ops[j], ap(ops[i], x[0], x[1]), x[2]);
    err[0] = 'x';
    v = infixcalc(e, vars, 3, err, sizeof(err));
    if (bad) { if (j == 9) REACH("division by zero"); CHECK(err[0] != 0 && v == INT_MIN, "division by zero is an error"); }
    else { if (j == 9) REACH("value"); CHECK(err[0] == 0, "no error"); CHECK(v == ref, "value of the expression"); }
    return;
  }
}
static const char *const tok[] = {"M", "+", "(", ")", "/"};
void h_any(void)
{
  char e[8], err[60];
  int v, t, sel = nd_range(0, 124);
  InfixCalcVariable vars[1];
  vars[0].name = "M"; vars[0].value = nd_i16();
  for (t=0; t<125; t++) {
    if (sel != t) continue;
    e[0] = *tok[t%5]; e[1] = *tok[t/5%5]; e[2] = ' '; e[3] = *tok[t/25]; e[4] = 0;
    err[0] = 0;
    v = infixcalc(e, vars, 1, err, sizeof(err));
    CHECK((v == INT_MIN) == (err[0] != 0), "a value or an error message");
    if (t == 55) REACH("some expression");
    return;
  }
}
static int idc(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
void h_depend(void)
{
  char e[N+1], w[3];
  int n = nd_str(e, N), i, r, exp = 0, wl;
  w[0] = nd_range('a', 'c'); w[1] = nd_range(0, 1) ? nd_range('a', 'c') : 0; w[2] = 0;
  wl = w[1] ? 2 : 1;
  for (i=0; i+wl<=n; i++)
    if (e[i] == w[0] && (wl == 1 || e[i+1] == w[1]) && (i == 0 || !idc(e[i-1])) && !idc(e[i+wl])) exp = 1;
  r = infixcalc_depend(e, w);
  if (r) REACH("depends");
  CHECK(!!r == exp, "variable occurs as a whole word");
}
