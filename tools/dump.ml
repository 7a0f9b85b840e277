(* Reads .cmt files and prints the typed syntax tree as JSON.
   Nothing of the analysed program is executed: this is a pretty-printer
   of the compiler's own resolved representation. *)
open Typedtree

let b = Buffer.create (1 lsl 20)
let add = Buffer.add_string b
let str s =
  add "\"";
  String.iter (fun c ->
    match c with
    | '"' -> add "\\\"" | '\\' -> add "\\\\"
    | c when Char.code c < 32 || Char.code c > 126 ->
        add (Printf.sprintf "\\u%04x" (Char.code c))
    | c -> Buffer.add_char b c) s;
  add "\""
let list f l =
  add "["; List.iteri (fun i x -> if i > 0 then add ","; f x) l; add "]"
let opt f = function None -> add "null" | Some x -> f x
let node tag fs =
  add "["; str tag; List.iter (fun f -> add ","; f ()) fs; add "]"
let int n () = add (string_of_int n)
let s x () = str x
let bool x () = add (if x then "true" else "false")
let f2 g x () = g x

let loc (l: Location.t) () =
  let p = l.loc_start in
  add (Printf.sprintf "[%d,%d]" p.pos_lnum (p.pos_cnum - p.pos_bol))

let ident id = Ident.unique_name id
let rec path p =
  match p with
  | Path.Pident id -> if Ident.global id then Ident.name id else Ident.unique_name id
  | Path.Pdot(p, n) -> path p ^ "." ^ n
  | Path.Papply(a, c) -> path a ^ "(" ^ path c ^ ")"

let rec ty depth t =
  match Types.get_desc t with
  | Types.Tconstr(p, args, _) ->
      let name = Path.name p in
      if args = [] || depth > 14 then name
      else name ^ "(" ^ String.concat "," (List.map (ty (depth+1)) args) ^ ")"
  | Types.Tarrow(_, a, r, _) ->
      if depth > 14 then "->" else "(" ^ ty (depth+1) a ^ "->" ^ ty (depth+1) r ^ ")"
  | Types.Ttuple l -> if depth > 14 then "*" else "(" ^ String.concat "*" (List.map (ty (depth+1)) l) ^ ")"
  | Types.Tobject(_, nm) ->
      (match !nm with Some(p, _) -> "<" ^ Path.name p ^ ">" | None -> "<>")
  | Types.Tvar _ | Types.Tunivar _ -> "'a"
  | Types.Tpoly(t, _) -> ty depth t
  | _ -> "?"

let ty t = try ty 0 t with _ -> "?"

let constant (c: Asttypes.constant) () =
  match c with
  | Const_int n -> node "int" [int n]
  | Const_char c -> node "char" [int (Char.code c)]
  | Const_string(x, _, _) -> node "string" [s x]
  | Const_float f -> node "float" [s f]
  | Const_int32 n -> node "int32" [s (Int32.to_string n)]
  | Const_int64 n -> node "int64" [s (Int64.to_string n)]
  | Const_nativeint n -> node "nativeint" [s (Nativeint.to_string n)]

let label (l: Asttypes.arg_label) () =
  match l with
  | Nolabel -> str "" | Labelled x -> str ("~" ^ x) | Optional x -> str ("?" ^ x)

let rec pat : type k. k general_pattern -> unit = fun p ->
  match p.pat_desc with
  | Tpat_any -> node "any" []
  | Tpat_var(id, _) -> node "var" [s (ident id); s (ty p.pat_type)]
  | Tpat_alias(p', id, _) -> node "alias" [f2 pat p'; s (ident id)]
  | Tpat_constant c -> node "const" [constant c]
  | Tpat_tuple l -> node "tuple" [f2 (list pat) l]
  | Tpat_construct(_, c, l, _) -> node "constr" [s c.cstr_name; f2 (list pat) l]
  | Tpat_variant(l, po, _) -> node "pvariant" [s l; f2 (opt pat) po]
  | Tpat_record(l, _) ->
      node "record" [f2 (list (fun (_, (ld: Types.label_description), p) ->
        node "f" [s ld.lbl_name; f2 pat p])) l]
  | Tpat_array l -> node "parray" [f2 (list pat) l]
  | Tpat_lazy p -> node "plazy" [f2 pat p]
  | Tpat_value p -> pat (p :> pattern)
  | Tpat_exception p -> node "exception" [f2 pat p]
  | Tpat_or(a, c, _) -> node "or" [f2 pat a; f2 pat c]

let rec expr e =
  let n tag fs = node tag (loc e.exp_loc :: fs) in
  match e.exp_desc with
  | Texp_ident(p, _, vd) ->
      let prim =
        match vd.val_kind with
        | Types.Val_prim d -> (fun () -> list str (d.Primitive.prim_name :: [d.Primitive.prim_native_name; string_of_int d.Primitive.prim_arity]))
        | _ -> (fun () -> add "null") in
      let kind =
        match vd.val_kind with
        | Types.Val_self _ -> "self" | Types.Val_anc _ -> "anc"
        | Types.Val_ivar _ -> "ivar" | Types.Val_prim _ -> "prim"
        | _ -> "reg" in
      n "ident" [s (path p); s kind; prim; s (ty e.exp_type)]
  | Texp_constant c -> n "const" [constant c]
  | Texp_let(r, vbs, e1) ->
      n "let" [bool (r = Asttypes.Recursive); f2 (list vb) vbs; f2 expr e1]
  | Texp_function {arg_label; param; cases; _} ->
      n "fun" [label arg_label; s (ident param); f2 (list case) cases; s (ty e.exp_type)]
  | Texp_apply(f, args) ->
      n "apply" [f2 expr f; f2 (list (fun (l, a) -> node "a" [label l; f2 (opt expr) a])) args; s (ty e.exp_type)]
  | Texp_match(e1, cases, _) -> n "match" [f2 expr e1; f2 (list case) cases]
  | Texp_try(e1, cases) -> n "try" [f2 expr e1; f2 (list case) cases]
  | Texp_tuple l -> n "tuple" [f2 (list expr) l]
  | Texp_construct(_, c, l) -> n "constr" [s c.cstr_name; f2 (list expr) l; s (ty e.exp_type)]
  | Texp_variant(l, eo) -> n "pvariant" [s l; f2 (opt expr) eo]
  | Texp_record {fields; extended_expression; _} ->
      n "record" [f2 (list (fun ((ld: Types.label_description), d) ->
         match d with
         | Kept _ -> node "kept" [s ld.lbl_name]
         | Overridden(_, e) -> node "set" [s ld.lbl_name; f2 expr e]))
           (Array.to_list fields); f2 (opt expr) extended_expression; s (ty e.exp_type)]
  | Texp_field(e1, _, ld) -> n "field" [f2 expr e1; s ld.lbl_name]
  | Texp_setfield(e1, _, ld, e2) -> n "setfield" [f2 expr e1; s ld.lbl_name; f2 expr e2]
  | Texp_array l -> n "array" [f2 (list expr) l]
  | Texp_ifthenelse(a, c, d) -> n "if" [f2 expr a; f2 expr c; f2 (opt expr) d]
  | Texp_sequence(a, c) -> n "seq" [f2 expr a; f2 expr c]
  | Texp_while(a, c) -> n "while" [f2 expr a; f2 expr c]
  | Texp_for(id, _, a, c, d, body) ->
      n "for" [s (ident id); f2 expr a; f2 expr c; bool (d = Asttypes.Upto); f2 expr body]
  | Texp_send(e1, m) ->
      let m () = match m with
        | Tmeth_name x -> node "name" [s x]
        | Tmeth_val id -> node "val" [s (Ident.name id); s (ident id)]
        | Tmeth_ancestor(id, p) -> node "anc" [s (Ident.name id); s (path p)] in
      n "send" [f2 expr e1; m; s (ty e.exp_type)]
  | Texp_new(p, _, _) -> n "new" [s (path p); s (ty e.exp_type)]
  | Texp_instvar(_, p, name) -> n "instvar" [s name.txt; s (path p); s (ty e.exp_type)]
  | Texp_setinstvar(_, p, name, e1) -> n "setinstvar" [s name.txt; s (path p); f2 expr e1]
  | Texp_override(_, l) ->
      n "override" [f2 (list (fun (_, (name: string Asttypes.loc), e) -> node "f" [s name.txt; f2 expr e])) l]
  | Texp_letmodule(id, _, _, me, e1) ->
      n "letmodule" [f2 (opt (fun id -> str (ident id))) id; f2 mexpr me; f2 expr e1]
  | Texp_letexception(_, e1) -> expr e1
  | Texp_assert e1 -> n "assert" [f2 expr e1]
  | Texp_lazy e1 -> n "lazy" [f2 expr e1]
  | Texp_object(cs, _) -> n "object" [f2 cstruct cs]
  | Texp_open(_, e1) -> expr e1
  | Texp_pack _ -> n "unsupported" [s "pack"]
  | Texp_letop _ -> n "unsupported" [s "letop"]
  | Texp_unreachable -> n "unreachable" []
  | Texp_extension_constructor _ -> n "unsupported" [s "extcon"]

and vb v = node "vb" [f2 pat v.vb_pat; f2 expr v.vb_expr]
and case : type k. k case -> unit = fun c ->
  node "case" [f2 pat c.c_lhs; f2 (opt expr) c.c_guard; f2 expr c.c_rhs]

and cexpr c =
  match c.cl_desc with
  | Tcl_ident(p, _, _) -> node "cident" [loc c.cl_loc; s (path p)]
  | Tcl_structure cs -> node "cstruct" [loc c.cl_loc; f2 cstruct cs]
  | Tcl_fun(l, p, vbs, c1, _) ->
      node "cfun" [loc c.cl_loc; label l; f2 pat p;
        f2 (list (fun (id, e) -> node "v" [s (ident id); f2 expr e])) vbs; f2 cexpr c1]
  | Tcl_apply(c1, args) ->
      node "capply" [loc c.cl_loc; f2 cexpr c1; f2 (list (fun (l, a) -> node "a" [label l; f2 (opt expr) a])) args]
  | Tcl_let(r, vbs, ids, c1) ->
      node "clet" [loc c.cl_loc; bool (r = Asttypes.Recursive); f2 (list vb) vbs;
        f2 (list (fun (id, e) -> node "v" [s (ident id); f2 expr e])) ids; f2 cexpr c1]
  | Tcl_constraint(c1, _, _, _, _) -> cexpr c1
  | Tcl_open(_, c1) -> cexpr c1

and cstruct cs =
  add "["; str "struct"; add ","; pat cs.cstr_self; add ",";
  list (fun f ->
    match f.cf_desc with
    | Tcf_inherit(_, ce, sup, vals, meths) ->
        node "inherit" [loc f.cf_loc; f2 cexpr ce; f2 (opt str) sup;
          f2 (list (fun (n, id) -> node "v" [s n; s (ident id)])) vals;
          f2 (list (fun (n, id) -> node "m" [s n; s (ident id)])) meths]
    | Tcf_val(name, m, id, k, _) ->
        node "val" [loc f.cf_loc; s name.txt; bool (m = Asttypes.Mutable); s (ident id);
          (fun () -> match k with Tcfk_virtual _ -> add "null" | Tcfk_concrete(_, e) -> expr e)]
    | Tcf_method(name, p, k) ->
        node "method" [loc f.cf_loc; s name.txt; bool (p = Asttypes.Private);
          (fun () -> match k with Tcfk_virtual _ -> add "null" | Tcfk_concrete(_, e) -> expr e)]
    | Tcf_initializer e -> node "init" [loc f.cf_loc; f2 expr e]
    | Tcf_constraint _ | Tcf_attribute _ -> node "skip" [])
    cs.cstr_fields;
  add "]"

and mexpr m =
  match m.mod_desc with
  | Tmod_ident(p, _) -> node "mident" [s (path p)]
  | Tmod_structure st -> node "mstruct" [f2 structure st]
  | Tmod_functor(p, m1) ->
      let id = match p with Named(Some id, _, _) -> ident id | _ -> "" in
      node "mfunctor" [s id; f2 mexpr m1]
  | Tmod_apply(a, c, _) -> node "mapply" [f2 mexpr a; f2 mexpr c]
  | Tmod_constraint(m1, _, _, _) -> mexpr m1
  | Tmod_unpack _ -> node "unsupported" [s "unpack"]

and structure st = list sitem st.str_items
and sitem it =
  let l = loc it.str_loc in
  match it.str_desc with
  | Tstr_eval(e, _) -> node "eval" [l; f2 expr e]
  | Tstr_value(r, vbs) -> node "value" [l; bool (r = Asttypes.Recursive); f2 (list vb) vbs]
  | Tstr_primitive vd ->
      let p = match vd.val_val.val_kind with
        | Types.Val_prim d -> d | _ -> assert false in
      let rec arg_types t =
        match Types.get_desc t with
        | Types.Tarrow(_, a, r, _) -> ty a :: arg_types r
        | Types.Tpoly(t, _) -> arg_types t
        | _ -> [ty t] in
      node "external" [l; s (ident vd.val_id); int p.Primitive.prim_arity;
        s p.Primitive.prim_name; s p.Primitive.prim_native_name;
        bool p.Primitive.prim_alloc; s (ty vd.val_val.val_type);
        f2 (list str) (arg_types vd.val_val.val_type);
        f2 (list (fun r -> str (match r with
           | Primitive.Same_as_ocaml_repr -> "value"
           | Primitive.Unboxed_float -> "float"
           | Primitive.Unboxed_integer _ -> "unboxed_int"
           | Primitive.Untagged_int -> "untagged"))) (p.Primitive.prim_native_repr_res :: p.Primitive.prim_native_repr_args)]
  | Tstr_type(_, decls) ->
      node "type" [l; f2 (list (fun d ->
        node "decl" [s (ident d.typ_id);
          (fun () -> match d.typ_type.Types.type_kind with
           | Types.Type_variant(cl, _) ->
               node "variant" [f2 (list (fun (c: Types.constructor_declaration) ->
                 let na = match c.Types.cd_args with Types.Cstr_tuple l -> List.length l | Types.Cstr_record l -> List.length l in
                 node "c" [s (Ident.name c.Types.cd_id); int na])) cl]
           | Types.Type_record(ll, _) ->
               node "record" [f2 (list (fun (ld: Types.label_declaration) ->
                 node "l" [s (Ident.name ld.Types.ld_id); bool (ld.Types.ld_mutable = Asttypes.Mutable); s (ty ld.Types.ld_type)])) ll]
           | Types.Type_abstract -> node "abstract" []
           | Types.Type_open -> node "open" []);
          f2 (opt (fun t -> str (ty t))) d.typ_type.Types.type_manifest])) decls]
  | Tstr_exception te -> node "exn" [l; s (ident te.tyexn_constructor.ext_id)]
  | Tstr_module mb ->
      node "module" [l; f2 (opt (fun id -> str (ident id))) mb.mb_id; f2 mexpr mb.mb_expr]
  | Tstr_recmodule _ -> node "unsupported" [l; s "recmodule"]
  | Tstr_class cl ->
      node "class" [l; f2 (list (fun (cd, _) ->
        node "cd" [s (ident cd.ci_id_class); s (Ident.name cd.ci_id_class); bool (cd.ci_virt = Asttypes.Virtual); f2 cexpr cd.ci_expr; loc cd.ci_loc])) cl]
  | Tstr_class_type _ -> node "classtype" [l]
  | Tstr_open od -> node "open" [l; f2 mexpr od.open_expr]
  | Tstr_include _ -> node "include" [l]
  | Tstr_modtype _ | Tstr_typext _ | Tstr_attribute _ -> node "skip" [l]

(* interface: the exported values and classes *)
let rec signature sg = list sgitem sg.sig_items
and sgitem it =
  match it.sig_desc with
  | Tsig_value vd -> node "val" [s (Ident.name vd.val_id); s (ty vd.val_val.val_type)]
  | Tsig_class cl ->
      node "class" [f2 (list (fun cd -> str (Ident.name cd.ci_id_class))) cl]
  | Tsig_module md ->
      node "module" [s (match md.md_id with Some i -> Ident.name i | None -> "_");
        (fun () -> match md.md_type.mty_desc with
          | Tmty_signature sg -> signature sg | _ -> add "[]")]
  | _ -> node "skip" []

let () =
  add "{";
  for i = 1 to Array.length Sys.argv - 1 do
    if i > 1 then add ",\n";
    let f = Sys.argv.(i) in
    let cmt = Cmt_format.read_cmt f in
    str (cmt.Cmt_format.cmt_modname ^
      (if Filename.check_suffix f ".cmti" then ":intf" else "")); add ":";
    (match cmt.Cmt_format.cmt_annots with
     | Cmt_format.Implementation st -> structure st
     | Cmt_format.Interface sg -> signature sg
     | _ -> failwith ("no annotations in " ^ f))
  done;
  add "}\n";
  print_string (Buffer.contents b)
