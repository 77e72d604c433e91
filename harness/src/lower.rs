//! Crate trees to reference trees (a field-by-field reading), and back.

use crate::model::*;
use graphql_parser::query as q;
use graphql_parser::query::Text;
use graphql_parser::schema as s;
use graphql_parser::Pos;

fn p(x: Pos) -> P {
    P(x.line as u32, x.column as u32)
}
fn st<'a, T: Text<'a>>(x: &T::Value) -> String {
    let r: &str = x.as_ref();
    r.to_string()
}

pub fn val<'a, T: Text<'a>>(v: &q::Value<'a, T>) -> Val {
    match v {
        q::Value::Variable(n) => Val::Var(st::<T>(n)),
        q::Value::Int(n) => Val::Int(n.as_i64().expect("as_i64")),
        q::Value::Float(f) => Val::Float(F::new(*f)),
        q::Value::String(s) => Val::Str(s.clone()),
        q::Value::Boolean(b) => Val::Bool(*b),
        q::Value::Null => Val::Null,
        q::Value::Enum(n) => Val::Enum(st::<T>(n)),
        q::Value::List(l) => Val::List(l.iter().map(val).collect()),
        q::Value::Object(o) => Val::Obj(o.iter().map(|(k, v)| (st::<T>(k), val(v))).collect()),
    }
}
pub fn ty<'a, T: Text<'a>>(t: &q::Type<'a, T>) -> Ty {
    match t {
        q::Type::NamedType(n) => Ty::Named(st::<T>(n)),
        q::Type::ListType(t) => Ty::List(Box::new(ty(t))),
        q::Type::NonNullType(t) => Ty::NonNull(Box::new(ty(t))),
    }
}
pub fn args<'a, T: Text<'a>>(a: &[(T::Value, q::Value<'a, T>)]) -> Args {
    a.iter().map(|(k, v)| (st::<T>(k), val(v))).collect()
}
pub fn dir<'a, T: Text<'a>>(d: &q::Directive<'a, T>) -> Dir {
    Dir { pos: p(d.position), name: st::<T>(&d.name), args: args::<T>(&d.arguments) }
}
fn dirs<'a, T: Text<'a>>(d: &[q::Directive<'a, T>]) -> Vec<Dir> {
    d.iter().map(dir).collect()
}

pub fn selset<'a, T: Text<'a>>(x: &q::SelectionSet<'a, T>) -> SelSet {
    SelSet { start: p(x.span.0), end: p(x.span.1), items: x.items.iter().map(sel).collect() }
}
fn cond<'a, T: Text<'a>>(c: &q::TypeCondition<'a, T>) -> String {
    match c {
        q::TypeCondition::On(n) => st::<T>(n),
    }
}
pub fn sel<'a, T: Text<'a>>(x: &q::Selection<'a, T>) -> Sel {
    match x {
        q::Selection::Field(f) => Sel::Field(QField {
            pos: p(f.position),
            alias: f.alias.as_ref().map(st::<T>),
            name: st::<T>(&f.name),
            args: args::<T>(&f.arguments),
            dirs: dirs(&f.directives),
            sel: selset(&f.selection_set),
        }),
        q::Selection::FragmentSpread(f) => {
            Sel::Spread { pos: p(f.position), name: st::<T>(&f.fragment_name), dirs: dirs(&f.directives) }
        }
        q::Selection::InlineFragment(f) => Sel::Inline {
            pos: p(f.position),
            on: f.type_condition.as_ref().map(cond),
            dirs: dirs(&f.directives),
            sel: selset(&f.selection_set),
        },
    }
}
pub fn var<'a, T: Text<'a>>(v: &q::VariableDefinition<'a, T>) -> VarDef {
    VarDef {
        pos: p(v.position),
        name: st::<T>(&v.name),
        ty: ty(&v.var_type),
        default: v.default_value.as_ref().map(val),
    }
}
pub fn qdef<'a, T: Text<'a>>(d: &q::Definition<'a, T>) -> QDef {
    use q::OperationDefinition as O;
    match d {
        q::Definition::Fragment(f) => QDef::Frag(Frag {
            pos: p(f.position),
            name: st::<T>(&f.name),
            on: cond(&f.type_condition),
            dirs: dirs(&f.directives),
            sel: selset(&f.selection_set),
        }),
        q::Definition::Operation(O::SelectionSet(s)) => QDef::Sel(selset(s)),
        q::Definition::Operation(O::Query(o)) => QDef::Op(Op {
            kind: OpKind::Query,
            pos: p(o.position),
            name: o.name.as_ref().map(st::<T>),
            vars: o.variable_definitions.iter().map(var).collect(),
            dirs: dirs(&o.directives),
            sel: selset(&o.selection_set),
        }),
        q::Definition::Operation(O::Mutation(o)) => QDef::Op(Op {
            kind: OpKind::Mutation,
            pos: p(o.position),
            name: o.name.as_ref().map(st::<T>),
            vars: o.variable_definitions.iter().map(var).collect(),
            dirs: dirs(&o.directives),
            sel: selset(&o.selection_set),
        }),
        q::Definition::Operation(O::Subscription(o)) => QDef::Op(Op {
            kind: OpKind::Subscription,
            pos: p(o.position),
            name: o.name.as_ref().map(st::<T>),
            vars: o.variable_definitions.iter().map(var).collect(),
            dirs: dirs(&o.directives),
            sel: selset(&o.selection_set),
        }),
    }
}
pub fn qdoc<'a, T: Text<'a>>(d: &q::Document<'a, T>) -> Doc {
    Doc::Q(QDoc(d.definitions.iter().map(qdef).collect()))
}

pub fn inval<'a, T: Text<'a>>(v: &s::InputValue<'a, T>) -> InVal {
    InVal {
        pos: p(v.position),
        desc: v.description.clone(),
        name: st::<T>(&v.name),
        ty: ty(&v.value_type),
        default: v.default_value.as_ref().map(val),
        dirs: dirs(&v.directives),
    }
}
fn invals<'a, T: Text<'a>>(v: &[s::InputValue<'a, T>]) -> Vec<InVal> {
    v.iter().map(inval).collect()
}
pub fn sfield<'a, T: Text<'a>>(f: &s::Field<'a, T>) -> SField {
    SField {
        pos: p(f.position),
        desc: f.description.clone(),
        name: st::<T>(&f.name),
        args: invals(&f.arguments),
        ty: ty(&f.field_type),
        dirs: dirs(&f.directives),
    }
}
fn sfields<'a, T: Text<'a>>(v: &[s::Field<'a, T>]) -> Vec<SField> {
    v.iter().map(sfield).collect()
}
fn names<'a, T: Text<'a>>(v: &[T::Value]) -> Vec<String> {
    v.iter().map(st::<T>).collect()
}
fn enumvals<'a, T: Text<'a>>(v: &[s::EnumValue<'a, T>]) -> Vec<EnumVal> {
    v.iter()
        .map(|e| EnumVal {
            pos: p(e.position),
            desc: e.description.clone(),
            name: st::<T>(&e.name),
            dirs: dirs(&e.directives),
        })
        .collect()
}
pub fn sdef<'a, T: Text<'a>>(d: &s::Definition<'a, T>) -> SDef {
    use s::TypeDefinition as D;
    use s::TypeExtension as E;
    let td = |pos, desc: &Option<String>, name: &T::Value, dd: &[s::Directive<'a, T>], kind| TypeDef {
        pos: p(pos),
        desc: desc.clone(),
        name: st::<T>(name),
        dirs: dirs(dd),
        kind,
    };
    match d {
        s::Definition::SchemaDefinition(x) => SDef::Schema(SchemaDef {
            pos: p(x.position),
            dirs: dirs(&x.directives),
            query: x.query.as_ref().map(st::<T>),
            mutation: x.mutation.as_ref().map(st::<T>),
            subscription: x.subscription.as_ref().map(st::<T>),
        }),
        s::Definition::DirectiveDefinition(x) => SDef::Directive(DirDef {
            pos: p(x.position),
            desc: x.description.clone(),
            name: st::<T>(&x.name),
            args: invals(&x.arguments),
            repeatable: x.repeatable,
            locs: x.locations.iter().map(|l| location_name(l).to_string()).collect(),
        }),
        s::Definition::TypeDefinition(t) => SDef::Type(match t {
            D::Scalar(x) => td(x.position, &x.description, &x.name, &x.directives, TKind::Scalar),
            D::Object(x) => td(
                x.position,
                &x.description,
                &x.name,
                &x.directives,
                TKind::Object { ifaces: names::<T>(&x.implements_interfaces), fields: sfields(&x.fields) },
            ),
            D::Interface(x) => td(
                x.position,
                &x.description,
                &x.name,
                &x.directives,
                TKind::Interface { ifaces: names::<T>(&x.implements_interfaces), fields: sfields(&x.fields) },
            ),
            D::Union(x) => td(x.position, &x.description, &x.name, &x.directives, TKind::Union(names::<T>(&x.types))),
            D::Enum(x) => td(x.position, &x.description, &x.name, &x.directives, TKind::Enum(enumvals(&x.values))),
            D::InputObject(x) => td(x.position, &x.description, &x.name, &x.directives, TKind::Input(invals(&x.fields))),
        }),
        s::Definition::TypeExtension(t) => SDef::Ext(match t {
            E::Scalar(x) => td(x.position, &None, &x.name, &x.directives, TKind::Scalar),
            E::Object(x) => td(
                x.position,
                &None,
                &x.name,
                &x.directives,
                TKind::Object { ifaces: names::<T>(&x.implements_interfaces), fields: sfields(&x.fields) },
            ),
            E::Interface(x) => td(
                x.position,
                &None,
                &x.name,
                &x.directives,
                TKind::Interface { ifaces: names::<T>(&x.implements_interfaces), fields: sfields(&x.fields) },
            ),
            E::Union(x) => td(x.position, &None, &x.name, &x.directives, TKind::Union(names::<T>(&x.types))),
            E::Enum(x) => td(x.position, &None, &x.name, &x.directives, TKind::Enum(enumvals(&x.values))),
            E::InputObject(x) => td(x.position, &None, &x.name, &x.directives, TKind::Input(invals(&x.fields))),
        }),
    }
}
pub fn sdoc<'a, T: Text<'a>>(d: &s::Document<'a, T>) -> Doc {
    Doc::S(SDoc(d.definitions.iter().map(sdef).collect()))
}

// ---- the other way: trees assembled in code ----

pub type SS = String;
fn up(x: P) -> Pos {
    Pos { line: x.0 as usize, column: x.1 as usize }
}

/// An integer beyond 32 bits has to come from a parsed text; `None` if it does not.
fn number(n: i64) -> Option<q::Number> {
    if let Ok(small) = i32::try_from(n) {
        return Some(small.into());
    }
    let text = format!("query($v:I={}){{a}}", n);
    let d = q::parse_query::<String>(&text).ok()?;
    match d.definitions.into_iter().next()? {
        q::Definition::Operation(q::OperationDefinition::Query(o)) => match o.variable_definitions.into_iter().next()?.default_value? {
            q::Value::Int(x) if x.as_i64() == Some(n) => Some(x),
            _ => None,
        },
        _ => None,
    }
}
pub fn raise_val(v: &Val) -> Option<q::Value<'static, SS>> {
    Some(match v {
        Val::Var(n) => q::Value::Variable(n.clone()),
        Val::Int(n) => q::Value::Int(number(*n)?),
        Val::Float(f) => q::Value::Float(f.get()),
        Val::Str(s) => q::Value::String(s.clone()),
        Val::Bool(b) => q::Value::Boolean(*b),
        Val::Null => q::Value::Null,
        Val::Enum(n) => q::Value::Enum(n.clone()),
        Val::List(l) => q::Value::List(l.iter().map(raise_val).collect::<Option<_>>()?),
        Val::Obj(o) => {
            let mut m = std::collections::BTreeMap::new();
            for (k, v) in o {
                m.insert(k.clone(), raise_val(v)?);
            }
            q::Value::Object(m)
        }
    })
}
pub fn raise_ty(t: &Ty) -> q::Type<'static, SS> {
    match t {
        Ty::Named(n) => q::Type::NamedType(n.clone()),
        Ty::List(t) => q::Type::ListType(Box::new(raise_ty(t))),
        Ty::NonNull(t) => q::Type::NonNullType(Box::new(raise_ty(t))),
    }
}
fn raise_args(a: &Args) -> Option<Vec<(String, q::Value<'static, SS>)>> {
    a.iter().map(|(k, v)| Some((k.clone(), raise_val(v)?))).collect()
}
fn raise_dirs(d: &[Dir]) -> Option<Vec<q::Directive<'static, SS>>> {
    d.iter()
        .map(|d| Some(q::Directive { position: up(d.pos), name: d.name.clone(), arguments: raise_args(&d.args)? }))
        .collect()
}
fn raise_sel(s: &SelSet) -> Option<q::SelectionSet<'static, SS>> {
    let items = s
        .items
        .iter()
        .map(|i| {
            Some(match i {
                Sel::Field(f) => q::Selection::Field(q::Field {
                    position: up(f.pos),
                    alias: f.alias.clone(),
                    name: f.name.clone(),
                    arguments: raise_args(&f.args)?,
                    directives: raise_dirs(&f.dirs)?,
                    selection_set: raise_sel(&f.sel)?,
                }),
                Sel::Spread { pos, name, dirs } => q::Selection::FragmentSpread(q::FragmentSpread {
                    position: up(*pos),
                    fragment_name: name.clone(),
                    directives: raise_dirs(dirs)?,
                }),
                Sel::Inline { pos, on, dirs, sel } => q::Selection::InlineFragment(q::InlineFragment {
                    position: up(*pos),
                    type_condition: on.clone().map(q::TypeCondition::On),
                    directives: raise_dirs(dirs)?,
                    selection_set: raise_sel(sel)?,
                }),
            })
        })
        .collect::<Option<_>>()?;
    Some(q::SelectionSet { span: (up(s.start), up(s.end)), items })
}
pub fn raise_qdef(d: &QDef) -> Option<q::Definition<'static, SS>> {
    use q::OperationDefinition as O;
    Some(match d {
        QDef::Sel(s) => q::Definition::Operation(O::SelectionSet(raise_sel(s)?)),
        QDef::Frag(f) => q::Definition::Fragment(q::FragmentDefinition {
            position: up(f.pos),
            name: f.name.clone(),
            type_condition: q::TypeCondition::On(f.on.clone()),
            directives: raise_dirs(&f.dirs)?,
            selection_set: raise_sel(&f.sel)?,
        }),
        QDef::Op(o) => {
            let position = up(o.pos);
            let name = o.name.clone();
            let variable_definitions = o
                .vars
                .iter()
                .map(|v| {
                    Some(q::VariableDefinition {
                        position: up(v.pos),
                        name: v.name.clone(),
                        var_type: raise_ty(&v.ty),
                        default_value: match &v.default {
                            Some(d) => Some(raise_val(d)?),
                            None => None,
                        },
                    })
                })
                .collect::<Option<Vec<_>>>()?;
            let directives = raise_dirs(&o.dirs)?;
            let selection_set = raise_sel(&o.sel)?;
            q::Definition::Operation(match o.kind {
                OpKind::Query => O::Query(q::Query { position, name, variable_definitions, directives, selection_set }),
                OpKind::Mutation => {
                    O::Mutation(q::Mutation { position, name, variable_definitions, directives, selection_set })
                }
                OpKind::Subscription => {
                    O::Subscription(q::Subscription { position, name, variable_definitions, directives, selection_set })
                }
            })
        }
    })
}
fn raise_invals(v: &[InVal]) -> Option<Vec<s::InputValue<'static, SS>>> {
    v.iter()
        .map(|v| {
            Some(s::InputValue {
                position: up(v.pos),
                description: v.desc.clone(),
                name: v.name.clone(),
                value_type: raise_ty(&v.ty),
                default_value: match &v.default {
                    Some(d) => Some(raise_val(d)?),
                    None => None,
                },
                directives: raise_dirs(&v.dirs)?,
            })
        })
        .collect()
}
fn raise_fields(v: &[SField]) -> Option<Vec<s::Field<'static, SS>>> {
    v.iter()
        .map(|f| {
            Some(s::Field {
                position: up(f.pos),
                description: f.desc.clone(),
                name: f.name.clone(),
                arguments: raise_invals(&f.args)?,
                field_type: raise_ty(&f.ty),
                directives: raise_dirs(&f.dirs)?,
            })
        })
        .collect()
}
fn raise_enumvals(v: &[EnumVal]) -> Option<Vec<s::EnumValue<'static, SS>>> {
    v.iter()
        .map(|e| {
            let mut x = s::EnumValue::<SS>::new(e.name.clone());
            x.position = up(e.pos);
            x.description = e.desc.clone();
            x.directives = raise_dirs(&e.dirs)?;
            Some(x)
        })
        .collect()
}
pub fn raise_sdef(d: &SDef) -> Option<s::Definition<'static, SS>> {
    use s::TypeDefinition as D;
    use s::TypeExtension as E;
    macro_rules! fill {
        ($t:ident, $x:ident) => {{
            let mut x = s::$x::<SS>::new($t.name.clone());
            x.position = up($t.pos);
            x.directives = raise_dirs(&$t.dirs)?;
            x
        }};
    }
    Some(match d {
        SDef::Schema(x) => s::Definition::SchemaDefinition(s::SchemaDefinition {
            position: up(x.pos),
            directives: raise_dirs(&x.dirs)?,
            query: x.query.clone(),
            mutation: x.mutation.clone(),
            subscription: x.subscription.clone(),
        }),
        SDef::Directive(x) => {
            let mut y = s::DirectiveDefinition::<SS>::new(x.name.clone());
            y.position = up(x.pos);
            y.description = x.desc.clone();
            y.arguments = raise_invals(&x.args)?;
            y.repeatable = x.repeatable;
            y.locations = x.locs.iter().map(|l| location(l)).collect::<Option<_>>()?;
            s::Definition::DirectiveDefinition(y)
        }
        SDef::Type(t) => s::Definition::TypeDefinition(match &t.kind {
            TKind::Scalar => {
                let mut x = fill!(t, ScalarType);
                x.description = t.desc.clone();
                D::Scalar(x)
            }
            TKind::Object { ifaces, fields } => {
                let mut x = fill!(t, ObjectType);
                x.description = t.desc.clone();
                x.implements_interfaces = ifaces.clone();
                x.fields = raise_fields(fields)?;
                D::Object(x)
            }
            TKind::Interface { ifaces, fields } => {
                let mut x = fill!(t, InterfaceType);
                x.description = t.desc.clone();
                x.implements_interfaces = ifaces.clone();
                x.fields = raise_fields(fields)?;
                D::Interface(x)
            }
            TKind::Union(m) => {
                let mut x = fill!(t, UnionType);
                x.description = t.desc.clone();
                x.types = m.clone();
                D::Union(x)
            }
            TKind::Enum(v) => {
                let mut x = fill!(t, EnumType);
                x.description = t.desc.clone();
                x.values = raise_enumvals(v)?;
                D::Enum(x)
            }
            TKind::Input(v) => {
                let mut x = fill!(t, InputObjectType);
                x.description = t.desc.clone();
                x.fields = raise_invals(v)?;
                D::InputObject(x)
            }
        }),
        SDef::Ext(t) => s::Definition::TypeExtension(match &t.kind {
            TKind::Scalar => E::Scalar(fill!(t, ScalarTypeExtension)),
            TKind::Object { ifaces, fields } => {
                let mut x = fill!(t, ObjectTypeExtension);
                x.implements_interfaces = ifaces.clone();
                x.fields = raise_fields(fields)?;
                E::Object(x)
            }
            TKind::Interface { ifaces, fields } => {
                let mut x = fill!(t, InterfaceTypeExtension);
                x.implements_interfaces = ifaces.clone();
                x.fields = raise_fields(fields)?;
                E::Interface(x)
            }
            TKind::Union(m) => {
                let mut x = fill!(t, UnionTypeExtension);
                x.types = m.clone();
                E::Union(x)
            }
            TKind::Enum(v) => {
                let mut x = fill!(t, EnumTypeExtension);
                x.values = raise_enumvals(v)?;
                E::Enum(x)
            }
            TKind::Input(v) => {
                let mut x = fill!(t, InputObjectTypeExtension);
                x.fields = raise_invals(v)?;
                E::InputObject(x)
            }
        }),
    })
}

/// The location of this name, found without the crate's own name tables.
pub fn location(name: &str) -> Option<s::DirectiveLocation> {
    use s::DirectiveLocation as L;
    Some(match name {
        "QUERY" => L::Query,
        "MUTATION" => L::Mutation,
        "SUBSCRIPTION" => L::Subscription,
        "FIELD" => L::Field,
        "FRAGMENT_DEFINITION" => L::FragmentDefinition,
        "FRAGMENT_SPREAD" => L::FragmentSpread,
        "INLINE_FRAGMENT" => L::InlineFragment,
        "SCHEMA" => L::Schema,
        "SCALAR" => L::Scalar,
        "OBJECT" => L::Object,
        "FIELD_DEFINITION" => L::FieldDefinition,
        "ARGUMENT_DEFINITION" => L::ArgumentDefinition,
        "INTERFACE" => L::Interface,
        "UNION" => L::Union,
        "ENUM" => L::Enum,
        "ENUM_VALUE" => L::EnumValue,
        "INPUT_OBJECT" => L::InputObject,
        "INPUT_FIELD_DEFINITION" => L::InputFieldDefinition,
        "VARIABLE_DEFINITION" => L::VariableDefinition,
        _ => return None,
    })
}
/// The name of a location, not through the crate's `as_str`.
pub fn location_name(l: &s::DirectiveLocation) -> &'static str {
    EXEC_LOCS.iter().chain(TYPE_LOCS.iter()).find(|n| location(n).as_ref() == Some(l)).expect("known location")
}

pub enum Raised {
    Q(q::Document<'static, SS>),
    S(s::Document<'static, SS>),
}
pub fn raise(d: &Doc) -> Option<Raised> {
    Some(match d {
        Doc::Q(d) => Raised::Q(q::Document { definitions: d.0.iter().map(raise_qdef).collect::<Option<_>>()? }),
        Doc::S(d) => Raised::S(s::Document { definitions: d.0.iter().map(raise_sdef).collect::<Option<_>>()? }),
    })
}
/// A tree built in code.
pub fn raise_any(d: &Doc) -> Option<crate::api::Any<'static, SS>> {
    raise(d).map(|d| match d {
        Raised::Q(d) => crate::api::Any::Q(d),
        Raised::S(d) => crate::api::Any::S(d),
    })
}
