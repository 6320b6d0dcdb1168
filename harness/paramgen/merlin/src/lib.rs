//! A transcript that records its messages, framed by length so that the record determines them.
#![no_std]

pub const SIZE: usize = 192;

#[derive(Clone)]
pub struct Transcript {
    pub rec: [u8; SIZE],
    pub len: usize,
    pub challenges: usize,
    pub last: usize,
}

impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript { rec: [0; SIZE], len: 0, challenges: 0, last: 0 };
        t.put(label);
        t
    }

    fn put(&mut self, b: &[u8]) {
        assert!(b.len() < 256 && self.len + b.len() < SIZE, "record full");
        self.rec[self.len] = b.len() as u8;
        self.rec[self.len + 1..self.len + 1 + b.len()].copy_from_slice(b);
        self.len += 1 + b.len();
    }

    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        self.put(label);
        self.put(message);
    }

    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }

    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        self.put(label);
        self.challenges += 1;
        self.last = dest.len();
        for (i, b) in dest.iter_mut().enumerate() {
            *b = (i as u8).wrapping_mul(29).wrapping_add(7 * self.challenges as u8);
        }
    }
}
