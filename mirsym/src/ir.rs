//! The small memory-to-memory IR that monomorphic MIR is lowered to.
#[derive(Clone, Debug)]
pub enum Pj {
    Deref,
    DerefFat,
    Off(u64),
    /// field of an unsized tail with dynamic alignment (align read from the vtable in meta)
    DynOff(u64),
    Index { local: u32, stride: u64 },
    FromEnd { off: u64, stride: u64 },
    /// subslice of a slice: advance `from*stride`, meta -= from+to
    Sub { from: u64, to: u64, stride: u64 },
}

#[derive(Clone, Debug)]
pub struct Pl {
    pub base: u32,
    pub pj: Vec<Pj>,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Imm(u128),
    Pl(Pl),
    Glob(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Xor,
    And,
    Or,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Cmp,
    /// pointer offset with element stride
    Offset(u64),
}

#[derive(Clone, Debug)]
pub enum Discr {
    Const(u128),
    /// tag at offset; sign extension from tag size to discr size
    Direct { off: u32, tsize: u8, sext: bool },
    Niche { off: u32, tsize: u8, niche_start: u128, lo: u32, n: u32, untagged: u32 },
}

#[derive(Clone, Debug)]
pub enum Ex {
    Use(Opd),
    Bin { k: BinK, a: Opd, b: Opd, sz: u8, signed: bool, bsz: u8, bsigned: bool },
    Not { a: Opd, is_bool: bool },
    Neg { a: Opd },
    Cast { a: Opd, from: u8, signed: bool },
    Discr { p: Pl, d: Discr },
    AddrOf(Pl),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum St {
    Copy { dst: Pl, src: Opd, size: u32 },
    Store { dst: Pl, size: u8, e: Ex },
    BinOvf { dst: Pl, k: BinK, a: Opd, b: Opd, sz: u8, signed: bool, bsz: u8, flag: u32 },
    RefFat { dst: Pl, p: Pl },
    Repeat { dst: Pl, src: Opd, size: u32, count: u64 },
    /// vtable upcast: meta = load(meta + slot*8)
    Upcast { dst: Pl, src: Opd, slot: u32 },
    Assume(Opd),
    CopyNonOverlapping { src: Opd, dst: Opd, count: Opd, size: u64 },
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Inst(u32),
    Virtual(u32),
    Ptr(Opd),
}

#[derive(Clone, Debug)]
pub enum Arg {
    Val(Opd, u32),
    /// address (and metadata) of an unsized place
    UnsizedPlace(Pl),
}

#[derive(Clone, Debug)]
pub enum Tm {
    Goto(u32),
    Switch { a: Opd, sz: u8, targets: Vec<(u128, u32)>, otherwise: u32 },
    Return,
    Unreachable,
    DropCall { f: u32, p: Pl, fat: bool, next: u32 },
    DropDyn { p: Pl, next: u32 },
    Call { f: Callee, args: Vec<Arg>, dst: Pl, dsize: u32, next: Option<u32> },
    Assert { a: Opd, expected: bool, msg: String, next: u32 },
    Abort(String),
}

#[derive(Debug)]
pub struct Blk {
    pub st: Vec<St>,
    pub tm: Tm,
    pub tline: u32,
    pub slines: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub file: String,
    pub frame: u32,
    pub ret: u32,
    pub rsize: u32,
    pub args: Vec<(u32, u32)>,
    /// spread argument: index of the arg that is a tuple receiving the remaining actuals, with field offsets/sizes
    pub spread: Option<(usize, Vec<(u32, u32)>)>,
    pub blocks: Vec<Blk>,
}
