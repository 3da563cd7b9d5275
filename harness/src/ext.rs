//! Extended instruction sets of the harness: two sets ("A", "B") whose instructions keep
//! the set, the number and the operand words they were given.
use crate::spec::*;
use crate::util::*;
use magmaflow::spv::raw::{MemoryBlock, MemoryBlockResult, ReadError};
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::any::Any;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub struct X {
    pub set: u32,
    pub inst: u32,
    pub words: Vec<u32>,
}
impl fmt::Display for X {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(NAMES[self.set as usize])?;
        for _ in &self.words {
            f.write_str("+")?;
        }
        Ok(())
    }
}
impl Op for X {
    fn get_name(&self) -> &'static str {
        "X"
    }
}
impl ExtInst for X {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        match other.as_any().downcast_ref::<X>() {
            Some(o) => self == o,
            None => false,
        }
    }
}

pub const NAMES: &[&str] = &["GLSL.std.450", "A", "B", "AB", "", "A ", "GLSL.std.45", "glsl.std.450"];

/// set number 1 or more: instruction 0 takes all words, 1 takes one word, 2 takes none
pub struct Set(pub u32);
impl ExtInstSet for Set {
    fn get_name(&self) -> &'static str {
        NAMES[self.0 as usize]
    }
    fn read_instruction<'a, 'b>(
        &'b self,
        instruction: u32,
        mut block: MemoryBlock<'a>,
    ) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let mut words = vec![];
        if instruction == 0 {
            while !block.end() {
                let (b, w) = block.read_word()?;
                block = b;
                words.push(w);
            }
        } else if instruction == 1 {
            let (b, w) = block.read_word()?;
            block = b;
            words.push(w);
        } else if instruction != 2 {
            return Err(ReadError::UnknownExtInstOp(self.get_name(), instruction));
        }
        Ok((block, Box::new(X { set: self.0, inst: instruction, words })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(Set(self.0))
    }
}

/// the reference reading of the same sets
pub fn read(set: u32, inst: u32, r: &mut Rd, t: &mut Vec<Tok>) -> Res<()> {
    if set == 0 {
        return glsl(set, inst, r, t);
    }
    if inst == 0 {
        t.push(Tok::Name(NAMES[set as usize]));
        while r.left() > 0 {
            let v = r.word()?;
            t.push(Tok::Lit(v));
        }
    } else if inst == 1 {
        t.push(Tok::Name(NAMES[set as usize]));
        let v = r.word()?;
        t.push(Tok::Lit(v));
    } else if inst == 2 {
        t.push(Tok::Name(NAMES[set as usize]));
    } else {
        return Err(Err { kind: ek::ExtInstOp, a: inst, b: 0, s: NAMES[set as usize].to_string() });
    }
    Ok(())
}

/// words of an instruction of these sets
pub fn write(e: &dyn ExtInst, o: &mut Vec<u32>) {
    match e.as_any().downcast_ref::<X>() {
        Some(x) => {
            o.push(x.inst);
            o.extend_from_slice(&x.words);
        }
        None => o.push(0xBAD0_BAD0),
    }
}
