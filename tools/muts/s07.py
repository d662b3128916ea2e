T='crates/syntax/src/parse/token_set.rs'; R='crates/syntax/src/parse/recovery_set.rs'; P='crates/syntax/src/parse/parser.rs'; X='crates/syntax/src/parse/grammar/expressions.rs'; A='crates/syntax/src/ast/node_ext/bin_expr.rs'; O='crates/syntax/src/ast/operators.rs'; SC='crates/syntax/src/parse/grammar/specs/schemas.rs'
B='bug'; G='ok'
run('S07',[(T,'TokenSet(self.0 | other.0)','TokenSet(self.0 ^ other.0)')],'xor',B)
run('S07',[(T,'TokenSet(self.0 & !other.0)','TokenSet(self.0 ^ other.0)')],'subxor',B)
run('S07',[(T,'TokenSet(self.0 & !other.0)','TokenSet(self.0 ^ (self.0 & other.0))')],'sub alt',G)
run('S07',[(T,'let mut i = 0;\n        while','let mut i = 1;\n        while')],'skip first',B)
run('S07',[(T,'self.0 & mask(kind) != 0','(self.0 >> (kind as usize)) & 1 == 1')],'shift',G)
run('S07',[(T,'self.0 & mask(kind) != 0','!(self.0 & mask(kind) == 0)')],'neg',G)
run('S07',[(T,'self.0 & mask(kind) != 0','self.0 | mask(kind) == self.0')],'or eq',G)
run('S07',[(T,'self.0 & mask(kind) != 0','self.0 & mask(kind) > 1')],'gt1',B)
run('S07',[(T,'TokenSet::new(&[self]) + rhs','rhs')],'drop self',B)
run('S07',[(R,'self.keywords.extend(other.keywords);','if self.keywords.is_empty() { self.keywords = other.keywords; }')],'kw only if empty',B)
run('S07',[(R,'''                if self.token_set.contains(T![ident]) {
                    return true;
                }
                let current_text = p.current_text();
                self.keywords.contains(current_text)''','''                let current_text = p.current_text();
                self.keywords.contains(current_text) || self.token_set.contains(T![ident])''')],'or',G)
run('S07',[(R,'''                if self.token_set.contains(T![ident]) {
                    return true;
                }
                let current_text''','''                let current_text''')],'no ident',B)
run('S07',[(R,'self.token_set = self.token_set.sub(ts!(t));','self.token_set = ts!(t);')],'without',B)
run('S09',[(P,'T![<=] => self.at_composite2(n, T![<], T![=]),','T![<=] => self.nth(n) == T![<] && self.nth(n + 1) == T![=],')],'no joint',B)
run('S09',[(P,'/*T![...] | T![..=] |*/ T![<<=] | T![>>=] => 3,','/*T![...] | T![..=] |*/ T![<<=] => 3, T![>>=] => 2,')],'2',B)
run('S09',[(P,'if t2.kind != k2 || !t2.is_jointed_to_next {\n            return false;\n        }\n        let t3 = self.token_source.lookahead_nth(n + 2);\n        t3.kind == k3\n','if t2.kind != k2 {\n            return false;\n        }\n        let t3 = self.token_source.lookahead_nth(n + 2);\n        t3.kind == k3\n')],'third',B)
run('S09',[(P,'''        if t1.kind != k1 || !t1.is_jointed_to_next {
            return false;
        }
        let t2 = self.token_source.lookahead_nth(n + 1);
        t2.kind == k2
''','''        let t2 = self.token_source.lookahead_nth(n + 1);
        t1.kind == k1 && t1.is_jointed_to_next && t2.kind == k2
''')],'and',G)
run('S09',[(P,'T![<==>] => 2,\n','')],'default',B)
run('S09',[(P,'        if self.eat(kind) {\n            return true;\n        }\n        self.push_error(error_message);\n        false','        let ok = self.eat(kind);\n        if !ok {\n            self.push_error(error_message);\n        }\n        ok')],'expect refac',G)
run('S09',[(P,'        self.push_error(error_message);\n        false','        if self.nth(0) != EOF { self.push_error(error_message); }\n        false')],'silent at eof',B)
run('S08',[(X,'T![&] if p.at(T![&&])  => (5,','T![&] if p.at(T![&&])  => (4,')],'lvl',B)
run('S08',[(X,'op_bp + 1);','op_bp);')],'right assoc',B)
run('S08',[(X,'        if op_bp < bp {\n            break;\n        }','        if op_bp <= bp {\n            break;\n        }')],'<=',B)
run('S08',[(X,'        if op_bp < bp {\n            break;\n        }','        if !(op_bp >= bp) {\n            break;\n        }')],'neg',G)
run('S08',[(X,'expr_bp(p, r, 255);','expr_bp(p, r, 11);')],'unary',B)
run('S08',[(X,'''        T![>] if p.at(T![>=])  => (6,  T![>=]),
        T![>] if p.at(T![>>])  => (10,  T![>>]),
        T![>]                  => (6,  T![>]),''','''        T![>] if p.at(T![>=])  => (6,  T![>=]),
        T![>]                  => (6,  T![>]),
        T![>] if p.at(T![>>])  => (10,  T![>>]),''')],'order',B)
run('S08',[(A,'BinaryOp::ArithOp(ArithOp::BitXor) => 8,','BinaryOp::ArithOp(ArithOp::BitXor) => 7,')],'ast bp',B)
run('S08',[(A,'T![>>=] => BinaryOp::Assignment { op: Some(ArithOp::Shr) }','T![>>=] => BinaryOp::Assignment { op: Some(ArithOp::Shl) }')],'ast op',B)
run('S08',[(O,'ArithOp::Rem => "%"','ArithOp::Rem => "/"')],'disp',B)
run('S08',[(X,'if is_range { RANGE_EXPR } else { BIN_EXPR }','if is_range && op_bp == 3 { RANGE_EXPR } else { BIN_EXPR }')],'equiv?',B)
run('S08',[(X,'''        if p.at(T![as]) {
            lhs = cast_expr(p, lhs);
            continue;
        }
''','''        if op == T![as] {
            lhs = cast_expr(p, lhs);
            continue;
        }
''')],'as op',G)
run('S08',[(X,'let cm = expr_bp(p, Restrictions { prefer_stmt: false, ..r }, op_bp + 1);','let rhs_bp = op_bp + 1;\n        let cm = expr_bp(p, r, rhs_bp);')],'rhs var',G)
run('S08',[(X,'T![>] if p.at(T![>=])  => (6,','T![>] if p.at(T![>=])  => (CMP_BP,'),(X,'fn current_op(p: &Parser)','const CMP_BP: u8 = 6;\nfn current_op(p: &Parser)')],'const',G)
