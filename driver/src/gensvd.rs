//! Random but valid SVD devices.
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Ev {
    pub name: String,
    pub val: u64,
    pub desc: String,
}
#[derive(Clone, Debug)]
pub struct Fld {
    pub name: String,
    pub desc: Option<String>,
    pub off: u32,
    pub width: u32,
    pub access: Option<&'static str>,
    pub evs: Vec<Ev>,
    pub range: Option<(u64, u64)>,
    pub derived: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Reg {
    pub name: String,
    pub desc: Option<String>,
    pub off: u32,
    pub size: Option<u32>,
    pub access: Option<&'static str>,
    pub reset: Option<u64>,
    pub dim: Option<(u32, u32)>,
    pub derived: Option<String>,
    pub fields: Vec<Fld>,
}
#[derive(Clone, Debug)]
pub enum Item {
    R(Reg),
    C { name: String, off: u32, dim: Option<(u32, u32)>, regs: Vec<Reg> },
}
#[derive(Clone, Debug)]
pub struct Per {
    pub name: String,
    pub derived: Option<String>,
    pub base: u32,
    pub desc: Option<String>,
    pub group: Option<String>,
    pub ints: Vec<(String, Option<String>, u32)>,
    pub items: Vec<Item>,
    /// registers CH1_CFG, CH2_CFG, ... with equal content and stride
    pub chans: u32,
}
#[derive(Clone, Debug)]
pub struct Dev {
    pub name: String,
    pub cpu: bool,
    pub pers: Vec<Per>,
    pub vigs: Vec<crate::vignette::Vig>,
    pub version: String,
    pub pad: usize,
    pub bitrange: u64,
    pub crlf: bool,
    pub bom: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub pers: u64,
    pub regs: u64,
    pub fields: u64,
    /// bytes of XML comment to add, to make a file large
    pub pad: usize,
}
impl Opt {
    pub fn pick(r: &mut Rng) -> Opt {
        if r.chance(1, 200) {
            return Opt { pers: r.range(10, 40), regs: r.range(1, 3), fields: 2, pad: 0 };
        }
        if r.chance(1, 300) {
            return Opt { pers: 1, regs: 2, fields: 2, pad: r.range(400_000, 1_500_000) as usize };
        }
        match r.below(20) {
            0..=9 => Opt { pers: r.range(1, 4), regs: r.range(1, 4), fields: 3, pad: 0 },
            10..=15 => Opt { pers: r.range(2, 6), regs: r.range(2, 8), fields: 4, pad: 0 },
            16..=17 => Opt { pers: r.range(3, 9), regs: r.range(6, 14), fields: 6, pad: 0 },
            18 => Opt { pers: r.range(1, 3), regs: 2, fields: 2, pad: r.range(9_000, 70_000) as usize },
            _ => Opt { pers: r.range(1, 2), regs: 2, fields: 2, pad: r.range(70_000, 200_000) as usize },
        }
    }
    pub fn small(r: &mut Rng) -> Opt {
        Opt { pers: r.range(1, 3), regs: r.range(1, 4), fields: 3, pad: 0 }
    }
}

const WORDS: &[&str] = &[
    "Enable", "status", "flag", "the", "clock", "of", "channel", "mode", "interrupt", "reset", "value", "<b>", "&", "\"q\"",
    "temp °C", "µs", "ready", "counter", "x > 3", "select", "DMA", "漢字", "transfer", "it's", "mask", "bus",
];
pub fn text(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    let mut s: Vec<String> = (0..n).map(|_| r.pick(WORDS).to_string()).collect();
    if r.chance(1, 12) {
        s.push("\n      continued".into());
    }
    s.join(" ")
}
fn some<T>(r: &mut Rng, n: u64, d: u64, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(n, d) {
        Some(f(r))
    } else {
        None
    }
}

fn fields(r: &mut Rng, max: u64, size: u32) -> Vec<Fld> {
    let mut v = Vec::new();
    let mut off = 0;
    let names = ["EN", "MODE", "IE", "CNT", "SEL", "RDY", "DIV", "PRESC"];
    for k in 0..r.below(max + 1) as usize {
        let width = r.range(1, 4) as u32;
        if off + width > size {
            break;
        }
        let mut f = Fld {
            name: format!("{}{}", names[k % names.len()], if k >= names.len() { format!("{k}") } else { String::new() }),
            desc: some(r, 4, 5, text),
            off,
            width,
            access: some(r, 1, 3, |r| *r.pick(&["read-only", "read-write", "write-only"])),
            evs: vec![],
            range: None,
            derived: None,
        };
        if r.chance(1, 3) {
            let n = r.range(1, (1u64 << width).min(4));
            f.evs = (0..n).map(|i| Ev { name: format!("V{i}"), val: i, desc: text(r) }).collect();
        } else if r.chance(1, 5) {
            f.range = Some((0, (1u64 << width) - 1));
        }
        off += width + r.below(3) as u32;
        v.push(f);
    }
    v
}

fn regs(r: &mut Rng, o: &Opt, prefix: &str, off: &mut u32) -> Vec<Reg> {
    let names = ["CR", "SR", "DR", "CFG", "CNT", "IER", "ISR", "ICR", "BRR", "OAR", "TIM", "ARR", "PSC", "EGR"];
    let n = r.range(1, o.regs);
    let mut v: Vec<Reg> = Vec::new();
    for k in 0..n as usize {
        let size = some(r, 1, 3, |r| *r.pick(&[32u32, 16, 8]));
        let sz = size.unwrap_or(32);
        let dim = some(r, 1, 8, |r| (r.range(2, 4) as u32, 4));
        let derived = if k > 0 && dim.is_none() && r.chance(1, 10) {
            v.iter().find(|x| x.dim.is_none() && x.derived.is_none()).map(|x| x.name.clone())
        } else {
            None
        };
        let base = format!("{prefix}{}{}", names[k % names.len()], if k >= names.len() { format!("{}", k / names.len() + 1) } else { String::new() });
        v.push(Reg {
            name: if dim.is_some() { if r.chance(1, 2) { format!("{base}%s") } else { format!("{base}[%s]") } } else { base },
            desc: some(r, 5, 6, text),
            off: *off,
            // a narrower copy of a register need not hold its fields
            size: if derived.is_some() && !r.chance(1, 30) { None } else { size },
            access: some(r, 1, 2, |r| *r.pick(&["read-only", "read-write", "write-only", "writeOnce"])),
            reset: some(r, 1, 2, |r| r.below(1 << sz.min(31))),
            dim,
            fields: if derived.is_some() { vec![] } else { fields(r, o.fields, sz) },
            derived,
        });
        *off += 4 * dim.map_or(1, |d| d.0) + 4 * r.below(2) as u32;
    }
    v
}

pub fn device(r: &mut Rng, o: &Opt, name: &str) -> Dev {
    let kinds = ["TIM", "USART", "GPIO", "SPI", "ADC", "RCC", "DMA", "I2C", "WDG", "CAN"];
    let mut pers: Vec<Per> = Vec::new();
    let mut irq = r.below(3) as u32;
    let base = *r.pick(&[0x4000_0000u32, 0x4000_0000, 0x4001_0000, 0xE000_0000, 0]);
    let first = irq;
    let shared = r.chance(1, 2);
    for k in 0..o.pers as usize {
        let n = format!("{}{}", kinds[k % kinds.len()], if r.chance(2, 3) || k >= kinds.len() { format!("{}", k + 1) } else { "X".into() });
        let derived = if k > 0 && r.chance(1, 7) {
            pers.iter().find(|p| p.derived.is_none()).map(|p| p.name.clone())
        } else {
            None
        };
        let mut p = Per {
            base: base + 0x1000 * k as u32,
            desc: some(r, 3, 4, text),
            group: some(r, 1, 3, |_| kinds[k % kinds.len()].to_string()),
            ints: vec![],
            items: vec![],
            chans: 0,
            derived,
            name: n.clone(),
        };
        for j in 0..r.below(3) {
            p.ints.push((format!("{n}_IRQ{j}"), some(r, 3, 4, text), irq));
            irq += 1 + r.below(3) as u32;
        }
        // numbers that are used more than once, below this peripheral and others
        if shared && r.chance(1, 2) {
            for j in 0..r.range(1, 4) {
                let v = if j == 0 || r.chance(1, 2) { first } else { irq };
                p.ints.push((format!("{n}_SH{j}"), some(r, 3, 4, text), v));
                if r.chance(1, 6) {
                    let twice = p.ints.last().unwrap().clone();
                    p.ints.push(twice);
                }
            }
            irq += 1;
        }
        if p.derived.is_none() {
            let prefix = if r.chance(1, 3) { format!("{n}_") } else { String::new() };
            let mut off = 0;
            for x in regs(r, o, &prefix, &mut off) {
                p.items.push(Item::R(x));
            }
            if r.chance(1, 3) {
                p.chans = r.range(2, 4) as u32;
                let fs = fields(r, o.fields, 32);
                let desc = text(r).replace(char::is_numeric, "");
                off = (off + 15) & !15;
                for c in 1..=p.chans {
                    p.items.push(Item::R(Reg {
                        name: format!("CH{c}_CONF"),
                        desc: Some(desc.clone()),
                        off,
                        size: None,
                        access: None,
                        reset: Some(0),
                        dim: None,
                        derived: None,
                        fields: fs.clone(),
                    }));
                    off += 8;
                }
            }
            if r.chance(1, 4) {
                off = (off + 63) & !63;
                let mut inner = 0;
                let so = Opt { regs: 3, ..*o };
                let rs: Vec<Reg> = regs(r, &so, "", &mut inner).into_iter().filter(|x| x.derived.is_none()).collect();
                let dim = some(r, 1, 2, |r| (r.range(2, 3) as u32, 64));
                p.items.push(Item::C { name: if dim.is_some() { "BLK%s".into() } else { "BLK".into() }, off, dim, regs: rs });
            }
        }
        pers.push(p);
    }
    r.shuffle(&mut pers);
    // a derived peripheral may come before its base: legal, keep
    Dev {
        name: name.into(),
        cpu: r.chance(1, 2),
        pers,
        vigs: crate::vignette::some(r),
        version: format!("1.{}", r.below(100)),
        pad: o.pad,
        // the Python package does not take lsb and msb
        bitrange: r.below(if crate::vignette::PYTHON.get() { 2 } else { 3 }),
        crlf: r.chance(1, 10),
        bom: r.chance(1, 20),
    }
}

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

impl Dev {
    fn reg_xml(&self, x: &Reg, ind: usize, s: &mut String) {
        let t = " ".repeat(ind);
        s.push_str(&format!("{t}<register{}>\n", x.derived.as_ref().map_or(String::new(), |d| format!(" derivedFrom=\"{d}\""))));
        if let Some((n, inc)) = x.dim {
            s.push_str(&format!("{t}  <dim>{n}</dim>\n{t}  <dimIncrement>{inc}</dimIncrement>\n"));
        }
        s.push_str(&format!("{t}  <name>{}</name>\n", x.name));
        if let Some(d) = &x.desc {
            s.push_str(&format!("{t}  <description>{}</description>\n", esc(d)));
        }
        s.push_str(&format!("{t}  <addressOffset>0x{:X}</addressOffset>\n", x.off));
        if let Some(z) = x.size {
            s.push_str(&format!("{t}  <size>0x{z:X}</size>\n"));
        }
        if let Some(a) = x.access {
            s.push_str(&format!("{t}  <access>{a}</access>\n"));
        }
        if let Some(v) = x.reset {
            s.push_str(&format!("{t}  <resetValue>0x{v:08X}</resetValue>\n"));
        }
        if !x.fields.is_empty() {
            s.push_str(&format!("{t}  <fields>\n"));
            for f in &x.fields {
                s.push_str(&format!("{t}    <field>\n{t}      <name>{}</name>\n", f.name));
                if let Some(d) = &f.desc {
                    s.push_str(&format!("{t}      <description>{}</description>\n", esc(d)));
                }
                match self.bitrange {
                    0 => s.push_str(&format!("{t}      <bitOffset>{}</bitOffset>\n{t}      <bitWidth>{}</bitWidth>\n", f.off, f.width)),
                    1 => s.push_str(&format!("{t}      <bitRange>[{}:{}]</bitRange>\n", f.off + f.width - 1, f.off)),
                    _ => s.push_str(&format!("{t}      <lsb>{}</lsb>\n{t}      <msb>{}</msb>\n", f.off, f.off + f.width - 1)),
                }
                if let Some(a) = f.access {
                    s.push_str(&format!("{t}      <access>{a}</access>\n"));
                }
                if let Some((a, b)) = f.range {
                    s.push_str(&format!("{t}      <writeConstraint><range><minimum>{a}</minimum><maximum>{b}</maximum></range></writeConstraint>\n"));
                }
                if !f.evs.is_empty() {
                    s.push_str(&format!("{t}      <enumeratedValues>\n"));
                    for e in &f.evs {
                        s.push_str(&format!(
                            "{t}        <enumeratedValue><name>{}</name><description>{}</description><value>{}</value></enumeratedValue>\n",
                            e.name, esc(&e.desc), e.val
                        ));
                    }
                    s.push_str(&format!("{t}      </enumeratedValues>\n"));
                }
                s.push_str(&format!("{t}    </field>\n"));
            }
            s.push_str(&format!("{t}  </fields>\n"));
        }
        s.push_str(&format!("{t}</register>\n"));
    }
    pub fn xml(&self) -> String {
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>\n<device schemaVersion=\"1.1\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema-instance\" xs:noNamespaceSchemaLocation=\"CMSIS-SVD_Schema_1_1.xsd\">\n");
        if self.pad > 0 {
            s.push_str("<!-- ");
            while s.len() < self.pad {
                s.push_str("Lorem ipsum dolor sit amet, consectetur adipiscing elit é ");
            }
            s.push_str("-->\n");
        }
        s.push_str(&format!("  <name>{}</name>\n  <version>{}</version>\n  <description>{} device</description>\n", esc(&self.name), self.version, esc(&self.name)));
        if self.cpu {
            s.push_str("  <cpu>\n    <name>CM4</name>\n    <revision>r0p1</revision>\n    <endian>little</endian>\n    <mpuPresent>true</mpuPresent>\n    <fpuPresent>false</fpuPresent>\n    <nvicPrioBits>4</nvicPrioBits>\n    <vendorSystickConfig>false</vendorSystickConfig>\n  </cpu>\n");
        }
        s.push_str("  <addressUnitBits>8</addressUnitBits>\n  <width>32</width>\n  <size>0x20</size>\n  <resetValue>0x0</resetValue>\n  <resetMask>0xFFFFFFFF</resetMask>\n  <peripherals>\n");
        for p in &self.pers {
            s.push_str(&format!(
                "    <peripheral{}>\n      <name>{}</name>\n",
                p.derived.as_ref().map_or(String::new(), |d| format!(" derivedFrom=\"{d}\"")),
                p.name
            ));
            if let Some(d) = &p.desc {
                s.push_str(&format!("      <description>{}</description>\n", esc(d)));
            }
            if let Some(g) = &p.group {
                s.push_str(&format!("      <groupName>{g}</groupName>\n"));
            }
            s.push_str(&format!("      <baseAddress>0x{:08X}</baseAddress>\n", p.base));
            if p.derived.is_none() {
                s.push_str("      <addressBlock>\n        <offset>0x0</offset>\n        <size>0x400</size>\n        <usage>registers</usage>\n      </addressBlock>\n");
            }
            for (n, d, v) in &p.ints {
                s.push_str(&format!("      <interrupt>\n        <name>{n}</name>\n"));
                if let Some(d) = d {
                    s.push_str(&format!("        <description>{}</description>\n", esc(d)));
                }
                s.push_str(&format!("        <value>{v}</value>\n      </interrupt>\n"));
            }
            if !p.items.is_empty() {
                s.push_str("      <registers>\n");
                for i in &p.items {
                    match i {
                        Item::R(x) => self.reg_xml(x, 8, &mut s),
                        Item::C { name, off, dim, regs } => {
                            s.push_str("        <cluster>\n");
                            if let Some((n, inc)) = dim {
                                s.push_str(&format!("          <dim>{n}</dim>\n          <dimIncrement>{inc}</dimIncrement>\n"));
                            }
                            s.push_str(&format!("          <name>{name}</name>\n          <description>block</description>\n          <addressOffset>0x{off:X}</addressOffset>\n"));
                            for x in regs {
                                self.reg_xml(x, 10, &mut s);
                            }
                            s.push_str("        </cluster>\n");
                        }
                    }
                }
                s.push_str("      </registers>\n");
            }
            s.push_str("    </peripheral>\n");
        }
        for v in &self.vigs {
            s.push_str(&v.xml);
            s.push('\n');
        }
        s.push_str("  </peripherals>\n</device>\n");
        if self.bom {
            s.insert(0, '\u{feff}');
        }
        if self.crlf {
            s = s.replace('\n', "\r\n");
        }
        s
    }
}
