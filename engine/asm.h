/* inline assembly: empty barriers, and the bit scan and division
   instructions of the multi-precision code */
static Val do_asm(State *S, CallInst *call, std::vector<Val> &args) {
  auto *ia = cast<InlineAsm>(call->getCalledOperand());
  std::string s = ia->getAsmString();
  if (s.empty()) { if (args.empty()) return cv(0); return args[0]; }
  std::string op = s.substr(0, s.find(' '));
  auto word = [&](size_t i) -> E {
    if (call->getArgOperand(i)->getType()->isPointerTy()) return ex(load_at(S, need_conc(S, args[i], 64), 8, 64), 64);
    return ex(args[i], 64);
  };
  if (s.find('\n') == s.size() - 1 || s.find('\n') == std::string::npos) {
    if ((op == "bsrq" || op == "bsfq") && args.size() == 1) { /* operand known nonzero at every use; 0 for zero */
      E x = word(0), r = mkconst(0, 64);
      if (op == "bsrq") for (int i = 0; i < 64; i++) r = mkite(mkextract(x, i, 1), mkconst(i, 64), r);
      else for (int i = 63; i >= 0; i--) r = mkite(mkextract(x, i, 1), mkconst(i, 64), r);
      return ev(r);
    }
    if (op == "divq" && args.size() == 3) { /* rdx:rax / operand */
      E lo = word(0), hi = word(1), d = word(2);
      E bad = mknot(mkult(hi, d));
      if (!isc(bad) ? feasible(S, bad) : bad->v != 0) { if (!check_assert(S, mknot(bad), "divide overflow", "divzero")) g_lossy = true; if (isc(bad)) throw PathEnd(); addpc(S, mknot(bad)); }
      if (isc(hi, 0)) return mkagg({ev(mkdivrem(O_UDIV, lo, d)), ev(mkdivrem(O_UREM, lo, d))});
      E n = mkconcat(hi, lo), dd = mkzext(d, 128);
      return mkagg({ev(mkextract(mkdivrem(O_UDIV, n, dd), 0, 64)), ev(mkextract(mkdivrem(O_UREM, n, dd), 0, 64))});
    }
    if (op == "mulq" && args.size() == 2) {
      E p = mkmul(mkzext(word(0), 128), mkzext(word(1), 128));
      return mkagg({ev(mkextract(p, 0, 64)), ev(mkextract(p, 64, 64))});
    }
  }
  fail("inline asm: " + s.substr(0, 60));
}
