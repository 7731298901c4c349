SEEDS=[]
def seed(id,prop,edits,needs,breaks,main,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,main=main,**k))
D='core/src/definition.rs'; B='core/src/bundle.rs'; C='core/src/bytecode.rs'; M='core/src/mapper.rs'; A='core/src/ast.rs'; DE='decompiler/src/lib.rs'; F='decompiler/src/files.rs'; O='scc/cli/src/opts.rs'; PR='decompiler/src/print.rs'

seed('s01-empty-hint','C01',[(D,'let flags = self.flags.with_has_hint(self.hint.is_some());','let hint = self.hint.as_deref().filter(|hint| !hint.is_empty());\n        let flags = self.flags.with_has_hint(hint.is_some());'),
 (D,'if let Some(ref hint) = self.hint {\n            output.encode_str_prefixed','if let Some(hint) = hint {\n            output.encode_str_prefixed')],
 "a field whose hint is present but empty","The empty hint is dropped when the bundle is saved, so the field comes back without one.",
 r'''fn main() {
    let mut b = bundle();
    let ty = add_type(&mut b.pool, "Int32");
    let n = name(&mut b.pool, "fld");
    let f = Field { visibility: Visibility::Public, type_: ty, flags: FieldFlags::new(), hint: Some(String::new()), attributes: vec![], defaults: vec![] };
    let idx: PoolIndex<Field> = b.pool.add_definition(Definition::field(n, PoolIndex::UNDEFINED, f));
    let back = load(&save(&b)).unwrap();
    assert_eq!(back.pool.field(idx).unwrap().hint, Some(String::new()));
}
''')
seed('s02-unk2-order','C01',[(D,"let locals = if flags.has_locals() {\n            input.decode_vec_prefixed::<u32, PoolIndex<Local>>()?\n        } else {\n            vec![]\n        };","let mut locals = if flags.has_locals() {\n            input.decode_vec_prefixed::<u32, PoolIndex<Local>>()?\n        } else {\n            vec![]\n        };\n        locals.dedup();")],
 "a function that lists the same local twice in a row","Loading merges neighbouring equal entries of the list of locals, so saving again gives a different file.",
 r'''fn main() {
    let mut b = bundle();
    let n = name(&mut b.pool, "loc");
    let ty = add_type(&mut b.pool, "Int32");
    let l: PoolIndex<Local> = b.pool.add_definition(Definition::local(n, PoolIndex::UNDEFINED, Local::new(ty, LocalFlags::new())));
    let mut f = function(vec![Instr::Nop]);
    f.locals = vec![l, l];
    let idx = add_fun(&mut b.pool, "F;", f);
    let bytes = save(&b);
    let back = load(&bytes).unwrap();
    assert_eq!(back.pool.function(idx).unwrap().locals, vec![l, l]);
    assert_eq!(save(&back), bytes);
}
''')
seed('s03-data-crc','C02',[(B,'            hash: crc32fast::hash(bytes),\n        }\n    }\n}','            // every table is made of whole words\n            hash: crc32fast::hash(&bytes[..bytes.len() / 4 * 4]),\n        }\n    }\n}')],
 "string data whose length is not a multiple of four","The checksum of the string data leaves out its last bytes; only the game checks it.",
 r'''fn crc(bytes: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in bytes {
        c ^= u32::from(*b);
        for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; }
    }
    !c
}
fn word(b: &[u8], at: usize) -> u32 { u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) }
fn main() {
    for extra in ["a", "ab", "abc", "abcd"] {
        let mut b = bundle();
        name(&mut b.pool, extra);
        let bytes = save(&b);
        // header: magic, version, flags, timestamp (8), unk3, hash, chunks, then the data table
        let (offset, count, hash) = (word(&bytes, 32) as usize, word(&bytes, 36) as usize, word(&bytes, 40));
        assert_eq!(crc(&bytes[offset..offset + count]), hash, "checksum of {count} bytes of string data");
    }
}
''')
seed('s04-short-read','C03',[('core/src/decode.rs','        let mut vec = vec![0; size];\n        self.read_exact(&mut vec)?;\n        Ok(vec)','        // do not trust the size for the allocation\n        let mut vec = Vec::new();\n        self.by_ref().take(size as u64).read_to_end(&mut vec)?;\n        Ok(vec)'),
   ('core/src/decode.rs','use std::io;\n','use std::io::{self, Read};\n')],
 "a bundle cut in the middle of the path of its last source file","The truncated path is taken as complete instead of being reported.",
 r'''use std::path::PathBuf;
fn main() {
    let mut b = bundle();
    let f = SourceFile { id: 9, path_hash: 1, path: PathBuf::from("scripts/long/name.script") };
    let _: PoolIndex<SourceFile> = b.pool.add_definition(Definition::source_file(f));
    let bytes = save(&b);
    for cut in 1..bytes.len() {
        assert!(load(&bytes[..bytes.len() - cut]).is_err(), "{cut} bytes are missing, but the bundle loads");
    }
}
''')
seed('s05-dup-strings','C04',[(B,'let idx = PoolIndex::new(self.strings.len() as u32);','let idx = PoolIndex::new(self.mappings.len() as u32);')],
 "a string table that holds the same string twice, loaded and then added to","New strings get an index that belongs to an earlier entry.",
 r'''fn main() {
    let mut b = bundle();
    b.pool.strings.add(Ref::from("aaaa"));
    b.pool.strings.add(Ref::from("bbbb"));
    let mut bytes = save(&b);
    // make the table refer to the first string twice, as files of other tools do
    let word = |b: &[u8], at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
    let (table, n) = (word(&bytes, 92), word(&bytes, 96));
    let first = bytes[table + 4 * (n - 2)..table + 4 * (n - 1)].to_vec();
    bytes[table + 4 * (n - 1)..table + 4 * n].copy_from_slice(&first);
    let mut back = load(&bytes).unwrap();
    assert_eq!(back.pool.strings.get(PoolIndex::new(n as u32 - 1)).unwrap().as_ref(), "aaaa");
    let idx = back.pool.strings.add(Ref::from("fresh"));
    assert_eq!(back.pool.strings.get(idx).unwrap().as_ref(), "fresh");
}
''')
seed('s06-reserve-twice','C05',[(B,'        self.add_definition(Definition::DEFAULT)\n','        let last = self.definitions.len().saturating_sub(1);\n        match self.definitions.last() {\n            // the last slot is still free\n            Some(def) if last > 0 && def.name.is_undefined() && def.parent.is_undefined() => PoolIndex::new(last as u32),\n            _ => self.add_definition(Definition::DEFAULT),\n        }\n')],
 "two slots reserved before the first of them is filled","Both reservations get the same index, so the second definition overwrites the first.",
 r'''fn main() {
    let mut b = bundle();
    let x = b.pool.reserve::<Type>();
    let y = b.pool.reserve::<Type>();
    let (n, m) = (name(&mut b.pool, "First"), name(&mut b.pool, "Second"));
    b.pool.put_definition(x, Definition::type_(n, Type::Prim));
    b.pool.put_definition(y, Definition::type_(m, Type::Prim));
    assert_eq!(b.pool.def_name(x).unwrap().as_ref(), "First");
    assert_eq!(b.pool.def_name(y).unwrap().as_ref(), "Second");
}
''')
seed('s07-seek-end','C07',[(C,'        self.index = self.get_index(position)?;\n        Ok(())','        match self.get_index(position)? {\n            index if index < self.code.len() => self.index = index,\n            // past the last instruction: there is nothing left to read\n            _ => self.index = self.code.len().saturating_sub(1) + usize::from(!self.code.is_empty()),\n        }\n        Ok(())'),
  (C,'        let start = self.get_index(from)?;\n        let end = self.get_index(to)?;','        let start = self.get_index(from)?;\n        let end = self.get_index(to.max(from))?.min(self.code.len());')],
 "a range whose end lies before its start but not on an instruction","(equivalent)", "fn main() {}")
SEEDS.pop()
seed('s07-range-end','C07',[(C,'        let end = self.get_index(to)?;','        // a range that ends inside an instruction takes the whole of it\n        let end = self.get_index(to).unwrap_or_else(|_| self.offsets.partition_point(|off| *off < to.value) + 1);')],
 "a range whose end is in the middle of an instruction","The range gives an instruction that reaches beyond its end, instead of an error.",
 r'''fn main() {
    let code = Code::new(vec![Instr::Nop, Instr::I32Const(1), Instr::Nop, Instr::<Offset>::I32Const(2)]);
    let cur = code.cursor();
    assert_eq!(cur.range(Location::new(0), Location::new(6)).unwrap().count(), 2);
    assert!(cur.range(Location::new(0), Location::new(3)).is_err());
}
''')
seed('s08-new-not-mapped','C09',[(M,'Instr::Construct(_, idx) | Instr::New(idx) | Instr::DynamicCast(idx, _) =>','Instr::Construct(_, idx) | Instr::New(idx) | Instr::DynamicCast(idx, 0) =>')],
 "a dynamic cast with its flag set, in code whose classes are renumbered","The cast keeps pointing at the old class.",
 r'''use redscript::mapper::{MultiMapper, PoolMapper};
fn main() {
    let mut b = bundle();
    let (n, m) = (name(&mut b.pool, "A"), name(&mut b.pool, "B"));
    let x: PoolIndex<Class> = b.pool.add_definition(Definition::class(n, class(vec![], vec![])));
    let y: PoolIndex<Class> = b.pool.add_definition(Definition::class(m, class(vec![], vec![])));
    for flag in [false, true] {
        let f = add_fun(&mut b.pool, "F;", function(vec![Instr::DynamicCast(x, u8::from(flag)), Instr::Null]));
        PoolMapper::default().with_class_mapper(MultiMapper::new([(x, y)].into_iter().collect())).map(&mut b.pool);
        match b.pool.function(f).unwrap().code.as_ref()[0] {
            Instr::DynamicCast(idx, _) => assert_eq!(idx, y),
            _ => unreachable!(),
        }
    }
}
''')
seed('s09-loop-in-if','C10',[(DE,"any(|(loc, i)| matches!(i, Instr::Jump(offset) if offset.absolute(loc) == position))","last()\n            .is_some_and(|(loc, i)| matches!(i, Instr::Jump(offset) if offset.absolute(loc) <= position))")],
 "an if whose body ends with the jump back of an enclosing loop","An if at the very end of a loop body is taken for a loop itself.",
 r'''fn main() {
    // while c1 { e1; if c2 { break-free body ending in the loop's own jump } }: an optimised tail, as the game's compiler emits
    let mut code = vec![
        Instr::JumpIfFalse(off(0)), Instr::I32Const(1),
        Instr::JumpIfFalse(off(0)), Instr::I32Const(2),
        Instr::I32Const(3),
        Instr::Jump(off(0)),
        Instr::Nop,
    ];
    code[0] = Instr::JumpIfFalse(dist(&code, 0, 6));
    code[2] = Instr::JumpIfFalse(dist(&code, 2, 6));
    code[5] = Instr::Jump(dist(&code, 5, 0));
    let mut b = bundle();
    let f = add_fun(&mut b.pool, "F;", function(code));
    let out = decompiled(&b, f);
    assert_eq!(out.matches("while").count(), 1, "{out}");
}
''')
SEEDS.pop()
seed('s09-switch-jump','C10',[(DE,"Instr::Jump(offset) if offset.absolute(loc) > exit => Some(offset.absolute(loc)),\n                            _ => None,\n                        }) {","Instr::Jump(offset) if offset.absolute(loc) > exit => Some(offset.absolute(loc)),\n                            _ => None,\n                        }).filter(|_| cases.is_empty()) {")],
 "a switch with a default whose first case returns and a later case breaks","The end of the switch is only looked for in the first case; breaks of later cases become gotos or the default loses statements.",
 r'''fn main() {
    // switch 1 { case 2: return; case 3: if 4 { break; } 5; default: 6; 7; } 8;
    let mut code = vec![
        Instr::Switch(PoolIndex::new(1), off(0)), Instr::I32Const(1),
        Instr::SwitchLabel(off(0), off(0)), Instr::I32Const(2), Instr::Return, Instr::Nop,
        Instr::SwitchLabel(off(0), off(0)), Instr::I32Const(3), Instr::JumpIfFalse(off(0)), Instr::I32Const(4), Instr::Jump(off(0)), Instr::I32Const(5),
        Instr::SwitchDefault, Instr::I32Const(6), Instr::I32Const(7),
        Instr::I32Const(8), Instr::Nop,
    ];
    code[0] = Instr::Switch(PoolIndex::new(1), dist(&code, 0, 2));
    code[2] = Instr::SwitchLabel(dist(&code, 2, 6), dist(&code, 2, 4));
    code[6] = Instr::SwitchLabel(dist(&code, 6, 12), dist(&code, 6, 8));
    code[8] = Instr::JumpIfFalse(dist(&code, 8, 11));
    code[10] = Instr::Jump(dist(&code, 10, 15));
    let mut b = bundle();
    let f = add_fun(&mut b.pool, "F;", function(code));
    let out = decompiled(&b, f);
    let flat: String = out.split_whitespace().collect::<Vec<_>>().join(" ");
    assert!(flat.contains("if 4 { break; }; 5; default: 6; 7; }; 8;"), "{flat}");
}
''')
seed('s10-else-in-else','C10',[(DE,"Expr::If(_, if_, Some(else_), _) => resolve_jump(if_).or_else(move || resolve_jump(else_)),","Expr::If(_, if_, Some(else_), _) => resolve_jump(else_).or_else(move || resolve_jump(if_)),")],
 "unknown","x","fn main(){}")
SEEDS.pop()
seed('s10-two-nops','C11',[(DE,"            while matches!(self.code.peek(), Some(Instr::Skip(_))) || matches!(self.code.peek(), Some(Instr::Nop)) {","            if matches!(self.code.peek(), Some(Instr::Skip(_))) || matches!(self.code.peek(), Some(Instr::Nop)) {")],
 "a call that omits two or more optional arguments in a row","The second omitted argument shows up as an empty argument.",
 r'''fn main() {
    let mut b = bundle();
    let g = add_fun(&mut b.pool, "G;", function(vec![]));
    let mut code = vec![Instr::InvokeStatic(off(0), 1, g, 0), Instr::I32Const(1), Instr::Nop, Instr::Nop, Instr::ParamEnd, Instr::Nop];
    code[0] = Instr::InvokeStatic(dist(&code, 0, 5), 1, g, 0);
    let f = add_fun(&mut b.pool, "F;", function(code));
    let out = decompiled(&b, f);
    assert!(out.contains("G(1);"), "{out}");
}
''')
seed('s11-first-line','C17',[(D,"                .min(),\n            _ => None,","                .find(|line| *line > 0),\n            _ => None,")],
 "a class whose methods are not listed in source order, in a file with another definition between them","The class is listed after a definition that precedes it.",
 r'''use std::path::PathBuf;
fn main() {
    let mut b = bundle();
    let file: PoolIndex<SourceFile> = b.pool.add_definition(Definition::source_file(SourceFile { id: 1, path_hash: 1, path: PathBuf::from("x.script") }));
    let at = |line| { let mut f = function(vec![Instr::Nop]); f.source = Some(SourceReference { file, line }); f };
    let cls: PoolIndex<Class> = b.pool.reserve();
    let (late, early, cn) = (name(&mut b.pool, "Late;"), name(&mut b.pool, "Early;"), name(&mut b.pool, "Cls"));
    let m1: PoolIndex<Function> = b.pool.add_definition(Definition::function(late, cls, at(30)));
    let m2: PoolIndex<Function> = b.pool.add_definition(Definition::function(early, cls, at(10)));
    b.pool.put_definition(cls, Definition::class(cn, class(vec![m1, m2], vec![])));
    add_fun(&mut b.pool, "Mid;", at(20));
    let index = redscript_decompiler::files::FileIndex::from_pool(&b.pool);
    let entry = index.iter().find(|e| e.path == PathBuf::from("x.script")).unwrap();
    let names: Vec<_> = entry.definitions.iter().map(|d| b.pool.names.get(d.name).unwrap().to_string()).collect();
    assert_eq!(names, ["Cls", "Mid;"]);
}
''')
seed('s12-mangled-arrays','C19',[(A,"(Kind::Ref | Kind::WRef, [arg]) => arg.unwrapped(),","(Kind::Ref | Kind::WRef, [arg]) => match arg.kind() {\n                // a reference can only be to a class\n                Kind::Prim => arg,\n                _ => self,\n            },")],
 "a reference to a reference, or a reference nested in an array of references","The mangled name keeps the outer reference, so the function is not found under it.",
 r'''use redscript::ast::TypeName;
fn main() {
    for (repr, want) in [("ref:Foo", "Foo"), ("array:wref:Foo", "array<Foo>"), ("ref:wref:Foo", "Foo"), ("array:wref:script_ref:Foo", "array<script_ref<Foo>>")] {
        assert_eq!(TypeName::from_repr(repr).mangled().as_ref(), want, "{repr}");
    }
}
''')
seed('s13-threads-twice','C18',[(O,"            .parse(|s| s.map(|s| s.parse::<u8>()).unwrap_or(Ok(Opts::DEFAULT_THREADS)));","            .map(|s| s.map_or(Opts::DEFAULT_THREADS, |s| s.parse::<u8>().unwrap_or(u8::MAX)));")],
 "a number of threads above 255, or one that is not a number","The value is replaced by 255 instead of being refused.",
 r'''#[path = "/repo/scc/cli/src/opts.rs"]
mod opts;
fn main() {
    let ok = opts::Opts::load(&["-compile", "dir", "-threads", "4"]).map_err(|_| ()).unwrap();
    assert_eq!(ok.threads, 4);
    for bad in ["256", "many", "300"] {
        assert!(opts::Opts::load(&["-compile", "dir", "-threads", bad]).is_err(), "{bad} threads are accepted");
    }
}
''',h=False)
seed('s14-fix-args-pair','C20',[(O,"            let slashful = arg.replace('\"', \"\\\\\\\"\").replace(\"\\\" \", \"\\\"\");","            let slashful = arg.replacen('\"', \"\\\\\\\"\", 1).replace(\"\\\" \", \"\\\"\");")],
 "one broken argument that holds two quoted paths","Only the first path gets its backslash back.",
 r'''#[path = "/repo/scc/cli/src/opts.rs"]
mod opts;
fn main() {
    let v = |a: &[&str]| a.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    // "C:\a b\" -optimize "C:\c\" as the operating system splits it
    let got = opts::fix_args(v(&["-compile", "C:\\a b\" -optimize C:\\c\" -x"]));
    assert_eq!(got, v(&["-compile", "C:\\a b\\", "-optimize", "C:\\c\\", "-x"]), "{got:?}");
}
''',h=False)
seed('s15-code-length','C06',[(C,'let size: u32 = self.0.iter().map(|i| u32::from(i.size())).sum();','// locations are 16 bits wide, and so is the size\n        let size = u32::from(self.0.iter().fold(0u16, |size, i| size.wrapping_add(i.size())));')],
 "a function whose code is longer than 65535 bytes","The length of the code block wraps, so only its start is read back.",
 r'''fn main() {
    for n in [100, 30_000, 65_535, 65_536, 70_000] {
        let mut code: Vec<Instr<Offset>> = vec![Instr::Nop; n - 4];
        code.push(Instr::I8Const(7));
        code.push(Instr::I8Const(8));
        let code = Code::new(code);
        let mut bytes = vec![];
        bytes.encode(&code).unwrap();
        assert_eq!(bytes.len(), n + 4);
        let back: Code<Offset> = Cursor::new(bytes).decode().unwrap();
        assert_eq!(back.len(), code.len());
        assert!(back.as_ref() == code.as_ref());
    }
}
''')
seed('s16-switch-label-base','C08',[(C,'            Instr::Switch(idx, label) => Instr::Switch(idx, targets[label.index].relative(location)),','            // a switch without cases goes on after its operand\n            Instr::Switch(idx, label) => {\n                let offset = targets[label.index].relative(location);\n                Instr::Switch(idx, if offset.value < 0 { Offset::new(0) } else { offset })\n            }')],
 "a switch whose first label lies before it, or more than 32767 bytes behind it","The distance becomes 0 instead of leading back to the label.",
 r'''fn main() {
    for at in [0u16, 1, 100, 20_000] {
        for to in [0u16, 1, 5, 100, 20_000, 30_000] {
            let instr = Instr::Switch(PoolIndex::new(1), Label { index: 1 }).resolve_labels(Location::new(at), &[Location::new(9), Location::new(to)]);
            match instr {
                Instr::Switch(_, offset) => assert_eq!(offset.absolute(Location::new(at)), Location::new(to)),
                _ => unreachable!(),
            }
        }
    }
}
''')
seed('s17-declare-after-call','C12',[(DE,'            other => break other,\n','            // what is done with an object that is there already needs no local\n            Some(call @ Expr::MethodCall(..)) => init.push(call),\n            other => break other,\n')],
 "a method called with a local as an argument, as for an out parameter, ahead of the first assignment to the local","The local is declared after the call that mentions it.",
 r'''fn main() {
    // obj.Get(x); x = 1;
    let mut b = bundle();
    let ty = add_type(&mut b.pool, "Int32");
    let n = name(&mut b.pool, "x");
    let x: PoolIndex<Local> = b.pool.add_definition(Definition::local(n, PoolIndex::UNDEFINED, Local::new(ty, LocalFlags::new())));
    let get = name(&mut b.pool, "Get");
    let mut code = vec![Instr::InvokeVirtual(off(0), 1, get, 0), Instr::Local(x), Instr::ParamEnd, Instr::Assign, Instr::Local(x), Instr::I32One, Instr::Nop];
    code[0] = Instr::InvokeVirtual(dist(&code, 0, 3), 1, get, 0);
    let mut f = function(code);
    f.locals = vec![x];
    let f = add_fun(&mut b.pool, "F;", f);
    let out = decompiled(&b, f);
    let (declared, used) = (out.find("let x").unwrap(), out.find("Get(x)").unwrap());
    assert_eq!(out.matches("let x").count(), 1, "{out}");
    assert!(declared < used, "{out}");
}
''')
seed('s18-resource-quotes','C13',[(PR,'Constant::String(Literal::Resource, str) => write!(out, "r\\"{}\\"", str::escape_default(str))?','Constant::String(Literal::Resource, str) => write!(out, "r\\"{}\\"", str.replace(\'\\\\\', r"\\\\"))?')],
 "a resource path with a quote or a control character in it","The printed path ends at the quote, so that the rest is read as something else.",
 r'''fn main() {
    let mut b = bundle();
    for (path, want) in [("base\\x.ent", r#"r"base\\x.ent""#), ("a\"b", r#"r"a\"b""#), ("\"", r#"r"\"""#)] {
        let r = b.pool.resources.add(Ref::from(path));
        let f = add_fun(&mut b.pool, "F;", function(vec![Instr::Return, Instr::ResourceConst(r), Instr::Nop]));
        let out = decompiled(&b, f);
        assert!(out.contains(&format!("return {want};")), "{out}");
    }
}
''')
seed('s19-empty-else','C14',[(PR,'            if let Some(branch) = false_ {\n','            // a jump over nothing leaves an empty branch behind\n            let starts_empty = |seq: &&Seq<SourceAst>| seq.exprs.first().is_some_and(Expr::is_empty);\n            if let Some(branch) = false_.as_ref().filter(|seq| !starts_empty(seq)) {\n')],
 "an else branch that starts with a breakpoint or an empty instruction","The whole else branch is left out of the text.",
 r'''fn main() {
    // if 1 { 2 } else { nop; 3 }
    let mut code = vec![
        Instr::JumpIfFalse(off(0)), Instr::TrueConst, Instr::I32Const(2), Instr::Jump(off(0)),
        Instr::Nop, Instr::I32Const(3),
        Instr::Nop,
    ];
    code[0] = Instr::JumpIfFalse(dist(&code, 0, 4));
    code[3] = Instr::Jump(dist(&code, 3, 6));
    let mut b = bundle();
    let f = add_fun(&mut b.pool, "F;", function(code));
    let out = decompiled(&b, f);
    let flat: String = out.split_whitespace().collect::<Vec<_>>().join(" ");
    assert!(flat.contains("if true { 2; } else { 3; };"), "{flat}");
}
''')
seed('s20-signature-name','C15',[(PR,"            let pretty_name = name.split(';').next().expect(\"Function with empty name\");","            let (pretty_name, _) = name.rsplit_once(';').unwrap_or((&name, \"\"));")],
 "a function with several parameters in its signature, separated by semicolons","A part of the signature shows up in the printed name.",
 r'''fn main() {
    let mut b = bundle();
    for (full, want) in [("Alpha;", "Alpha"), ("Beta;Int32", "Beta"), ("Gamma;Int32;Bool", "Gamma"), ("Delta", "Delta")] {
        let mut f = function(vec![]);
        f.flags = f.flags.with_is_native(true);
        let f = add_fun(&mut b.pool, full, f);
        let out = decompiled(&b, f);
        assert!(out.contains(&format!("func {want}() -> Void;")), "{out}");
    }
}
''')
seed('s21-repeated-instr','C16',[(PR,'            for (offset, instr) in fun.code.iter() {\n','            // runs of padding are shown once\n            for (offset, instr) in fun.code.iter().dedup_by(|(_, a), (_, b)| a == b && a.size() == 1) {\n')],
 "the same one-byte instruction twice in a row, as in nested calls that end together","Only the first of the two is listed.",
 r'''fn main() {
    let mut b = bundle();
    let g = name(&mut b.pool, "G;");
    let code = vec![Instr::InvokeVirtual(off(0), 1, g, 0), Instr::InvokeVirtual(off(0), 1, g, 0), Instr::ParamEnd, Instr::ParamEnd, Instr::Nop];
    let n = code.len();
    let f = add_fun(&mut b.pool, "F;", function(code));
    let def = b.pool.definition(f).unwrap();
    let mut out = vec![];
    redscript_decompiler::print::write_definition(&mut out, def, &b.pool, 0, redscript_decompiler::print::OutputMode::Bytecode).unwrap();
    let out = String::from_utf8(out).unwrap();
    assert_eq!(out.lines().filter(|l| l.trim_start().starts_with(|c: char| c.is_ascii_digit())).count(), n, "{out}");
}
''')
seed('s23-cast-names','C11',[(DE,'if name.as_ref().starts_with("Cast;") {','if name.as_ref().starts_with("Cast") {')],
 "a call of a global function whose name only starts with Cast","The call gets a type argument it does not have, or is refused when the function returns nothing.",
 r'''fn main() {
    let mut b = bundle();
    let ty = add_type(&mut b.pool, "Int32");
    for (full, want) in [("Cast;Float", "Cast<Int32>(1);"), ("CastSpell;Int32", "CastSpell(1);"), ("CastRay;", "CastRay(1);")] {
        let mut g = function(vec![]);
        g.return_type = Some(ty);
        let g = add_fun(&mut b.pool, full, g);
        let mut code = vec![Instr::InvokeStatic(off(0), 1, g, 0), Instr::I32Const(1), Instr::ParamEnd, Instr::Nop];
        code[0] = Instr::InvokeStatic(dist(&code, 0, 3), 1, g, 0);
        let f = add_fun(&mut b.pool, "F;", function(code));
        let out = decompiled(&b, f);
        assert!(out.contains(&format!(" {want}")), "{out}");
    }
}
''')
seed('s24-else-break','C10',[(DE,'let else_case = self.consume_path(jump.position, block)?;','// only a loop can be left from within an else\n                let else_case = self.consume_path(jump.position, block.filter(|b| matches!(b, BlockContext::Loop { .. })))?;')],
 "a break out of a switch from within an else branch","The break is left as a goto.",
 r'''fn main() {
    // switch 1 { case 2: if 3 { 4; } else { 5; break; } 6; case 7: 8; default: 9; } 10;
    let mut code = vec![
        Instr::Switch(PoolIndex::new(1), off(0)), Instr::I32Const(1),
        Instr::SwitchLabel(off(0), off(0)), Instr::I32Const(2), Instr::JumpIfFalse(off(0)), Instr::I32Const(3), Instr::I32Const(4), Instr::Jump(off(0)), Instr::I32Const(5), Instr::Jump(off(0)), Instr::I32Const(6), Instr::Jump(off(0)),
        Instr::SwitchLabel(off(0), off(0)), Instr::I32Const(7), Instr::I32Const(8),
        Instr::SwitchDefault, Instr::I32Const(9),
        Instr::I32Const(10), Instr::Nop,
    ];
    let all = code.clone();
    code[0] = Instr::Switch(PoolIndex::new(1), dist(&all, 0, 2));
    code[2] = Instr::SwitchLabel(dist(&all, 2, 12), dist(&all, 2, 4));
    code[4] = Instr::JumpIfFalse(dist(&all, 4, 8));
    code[7] = Instr::Jump(dist(&all, 7, 10));
    code[9] = Instr::Jump(dist(&all, 9, 17));
    code[11] = Instr::Jump(dist(&all, 11, 17));
    code[12] = Instr::SwitchLabel(dist(&all, 12, 15), dist(&all, 12, 14));
    let mut b = bundle();
    let f = add_fun(&mut b.pool, "F;", function(code));
    let out = decompiled(&b, f);
    let flat: String = out.split_whitespace().collect::<Vec<_>>().join(" ");
    assert!(flat.contains("if 3 { 4; } else { 5; break; }; 6;"), "{flat}");
}
''')
seed('s25-partial-writes','C03',[('core/src/io.rs','        let written = self.inner.write(buf)?;\n        self.offset += written;\n        Ok(written)','        self.offset += buf.len();\n        self.inner.write(buf)')],
 "an output that takes only a part of what it is given, as pipes and sockets do","The offsets and sizes of the definitions are counted too high, so the file that is written cannot be read.",
 r'''struct Slow(Cursor<Vec<u8>>);
impl Write for Slow {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { let n = buf.len().min(3); self.0.write(&buf[..n]) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Seek for Slow {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(to) }
}
fn main() {
    let mut b = bundle();
    add_fun(&mut b.pool, "F;", function(vec![Instr::I64Const(5), Instr::Nop]));
    let mut out = Slow(Cursor::new(vec![]));
    b.save(&mut out).unwrap();
    assert!(out.0.into_inner() == save(&b));
}
''')
seed('s26-many-strings','C04',[(B,'let idx = PoolIndex::new(self.strings.len() as u32);','let idx = PoolIndex::new(u32::from(self.strings.len() as u16));')],
 "more than 65536 strings in one table","The index wraps, so it means one of the first strings.",
 r'''fn main() {
    let mut b = bundle();
    for n in 0..70_000 {
        let str = format!("string{n}");
        let idx = b.pool.strings.add(Ref::from(str.as_str()));
        assert_eq!(b.pool.strings.get(idx).unwrap().as_ref(), str);
    }
}
''')
seed('s27-seek-back','C07',[(C,'Location::new((i32::from(position.value) + i32::from(self.value)) as u16)','Location::new(position.value.saturating_add_signed(self.value))')],
 "a relative seek that leads to before the start of the code","The cursor lands on the first instruction instead of reporting an error.",
 r'''fn main() {
    let code = Code::new(vec![Instr::Nop, Instr::I32Const(1), Instr::<Offset>::I32Const(2)]);
    let mut cur = code.cursor();
    cur.pop().unwrap();
    cur.pop().unwrap();
    assert_eq!(cur.pos(), Location::new(6));
    cur.seek_rel(off(-5)).unwrap();
    assert_eq!(cur.pos(), Location::new(1));
    assert!(cur.seek_rel(off(-2)).is_err());
    assert_eq!(cur.pos(), Location::new(1));
}
''')
seed('s28-native-methods','C17',[(F,'                    .all(|fun| fun.flags.is_native()),','                    .all(|fun| fun.flags.is_native() || fun.code.is_empty()),')],
 "a class with a scripted function that has no body","The class is listed among the orphans as well as in its own file.",
 r'''use std::path::PathBuf;
fn main() {
    let mut b = bundle();
    let file: PoolIndex<SourceFile> = b.pool.add_definition(Definition::source_file(SourceFile { id: 1, path_hash: 1, path: PathBuf::from("x.script") }));
    let cls: PoolIndex<Class> = b.pool.reserve();
    let (mn, cn) = (name(&mut b.pool, "M;"), name(&mut b.pool, "OnlyMine"));
    let mut m = function(vec![]);
    m.source = Some(SourceReference { file, line: 4 });
    let m: PoolIndex<Function> = b.pool.add_definition(Definition::function(mn, cls, m));
    b.pool.put_definition(cls, Definition::class(cn, class(vec![m], vec![])));
    let index = redscript_decompiler::files::FileIndex::from_pool(&b.pool);
    let mut found = vec![];
    for entry in index.iter() {
        for d in entry.definitions.iter().filter(|d| d.name == cn) {
            let _ = d;
            found.push(entry.path.to_path_buf());
        }
    }
    assert_eq!(found, [PathBuf::from("x.script")]);
}
''')
