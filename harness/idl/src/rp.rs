//! What the code under test parsed, in this monitor's terms.
use crate::ast::*;
use rpcgen::parser as p;

fn val(v: &p::Value) -> Val {
    match v {
        p::Value::Constant(c) => Val::N(match c {
            p::Constant::Decimal(s) => Num::Dec(s.clone()),
            p::Constant::Hex(s) => Num::Hex(s.clone()),
            p::Constant::Octal(s) => Num::Oct(s.clone()),
        }),
        p::Value::Identifier(s) => Val::Id(s.clone()),
    }
}

fn assigns(a: &[p::Assign]) -> Vec<(String, Val)> {
    a.iter().map(|a| (a.identifier.clone(), val(&a.value))).collect()
}

fn ty(t: &p::TypeSpecifier) -> Ty {
    use p::TypeSpecifier as T;
    match t {
        T::Int(s) => Ty::Int(*s),
        T::Hyper(s) => Ty::Hyper(*s),
        T::Char(s) => Ty::Char(*s),
        T::Short(s) => Ty::Short(*s),
        T::Float => Ty::Float,
        T::Double => Ty::Double,
        T::Quadruple => Ty::Quad,
        T::Bool => Ty::Bool,
        T::Void => Ty::Void,
        T::Identifier(s) => Ty::Id(s.clone()),
        T::Enum(e) => Ty::Enum(assigns(&e.body)),
        T::Struct(s) => Ty::Struct(s.body.iter().map(decl).collect()),
        T::Union(u) => Ty::Union(Box::new(ubody(&u.body))),
    }
}

fn decl(d: &p::Declaration) -> Decl {
    use p::Declaration as D;
    match d {
        D::Void => Decl::Void,
        D::Variable(t, n) => Decl::T(ty(t), n.clone(), Kind::Plain),
        D::FixedArray(t, n, v) => Decl::T(ty(t), n.clone(), Kind::Fixed(val(v))),
        D::VariableArray(t, n, v) => Decl::T(ty(t), n.clone(), Kind::Var(v.as_ref().map(val))),
        D::OptionVariable(t, n) => Decl::T(ty(t), n.clone(), Kind::Ptr),
        D::OpaqueFixedArray(n, v) => Decl::OpF(n.clone(), val(v)),
        D::OpaqueVariableArray(n, v) => Decl::OpV(n.clone(), v.as_ref().map(val)),
        D::String(n, v) => Decl::Str(n.clone(), v.as_ref().map(val)),
    }
}

fn ubody(u: &p::UnionBody) -> UBody {
    UBody {
        cond: decl(&u.cond),
        cases: u.specs.iter().map(|s| (s.values.iter().map(val).collect(), decl(&s.declaration))).collect(),
        default: u.default.as_ref().map(decl),
    }
}

/// The definitions, and how many pass-through lines were noted among them.
pub fn defs(ds: &[p::Definition]) -> (Vec<Def>, usize) {
    let mut v = vec![];
    let mut lines = 0;
    for d in ds {
        match d {
            p::Definition::LineComment => lines += 1,
            p::Definition::Constant(a) => v.push(Def::Const(a.identifier.clone(), val(&a.value))),
            p::Definition::Type(t) => v.push(match t {
                p::TypeDef::Declaration(d) => Def::Typedef(decl(d)),
                p::TypeDef::Enum(n, a) => Def::Enum(n.clone(), assigns(a)),
                p::TypeDef::Struct(n, d) => Def::Struct(n.clone(), d.iter().map(decl).collect()),
                p::TypeDef::Union(n, u) => Def::Union(n.clone(), ubody(u)),
            }),
            p::Definition::Program(g) => v.push(Def::Program(
                g.name.clone(),
                g.versions
                    .iter()
                    .map(|w| {
                        let ps = w
                            .procedures
                            .iter()
                            .map(|q| Proc {
                                res: ty(&q.res_ty),
                                name: q.method.clone(),
                                arg: ty(&q.req_ty),
                                num: val(&q.value),
                            })
                            .collect();
                        (w.name.clone(), ps, val(&w.value))
                    })
                    .collect(),
                val(&g.value),
            )),
        }
    }
    (v, lines)
}
