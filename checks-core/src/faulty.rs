//! A source buffer whose accesses fail at a chosen point.

use crate::common::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::cell::Cell;
use std::ops::Range;

pub struct Faulty {
    pub v: VectorBuffer,
    pub h: HashMapBuffer,
    pub left: Cell<u64>,
    /// which of the two memory layouts it presents: 0 interleaved, 1 columnar
    pub as_cols: bool,
}

impl Faulty {
    pub fn new(s: &Schema, raw: &[u8], as_cols: bool) -> Faulty {
        let mut v = VectorBuffer::new_from_layout(s.layout.clone());
        let mut h = HashMapBuffer::new_from_layout(s.layout.clone());
        unsafe {
            v.push_points(raw);
            h.push_points(raw);
        }
        Faulty {
            v,
            h,
            left: Cell::new(u64::MAX),
            as_cols,
        }
    }
    pub fn arm(&self, accesses: u64) {
        self.left.set(accesses);
    }
    fn tick(&self) {
        let l = self.left.get();
        if l == 0 {
            self.left.set(u64::MAX);
            dsim::inject_panic();
        }
        if l != u64::MAX {
            self.left.set(l - 1);
        }
    }
}

impl<'a> BorrowedBuffer<'a> for Faulty {
    fn len(&self) -> usize {
        self.v.len()
    }
    fn point_layout(&self) -> &PointLayout {
        self.v.point_layout()
    }
    fn get_point(&self, index: usize, data: &mut [u8]) {
        self.tick();
        self.v.get_point(index, data)
    }
    fn get_point_range(&self, range: Range<usize>, data: &mut [u8]) {
        self.tick();
        self.v.get_point_range(range, data)
    }
    unsafe fn get_attribute_unchecked(&self, m: &PointAttributeMember, index: usize, data: &mut [u8]) {
        self.tick();
        self.v.get_attribute_unchecked(m, index, data)
    }
    fn as_interleaved(&self) -> Option<&dyn InterleavedBuffer<'a>> {
        if self.as_cols {
            None
        } else {
            Some(self)
        }
    }
    fn as_columnar(&self) -> Option<&dyn ColumnarBuffer<'a>> {
        if self.as_cols {
            Some(self)
        } else {
            None
        }
    }
}

impl<'a> InterleavedBuffer<'a> for Faulty {
    fn get_point_ref<'b>(&'b self, index: usize) -> &'b [u8]
    where
        'a: 'b,
    {
        self.tick();
        self.v.get_point_ref(index)
    }
    fn get_point_range_ref<'b>(&'b self, range: Range<usize>) -> &'b [u8]
    where
        'a: 'b,
    {
        self.tick();
        self.v.get_point_range_ref(range)
    }
}

impl<'a> ColumnarBuffer<'a> for Faulty {
    fn get_attribute_ref<'b>(&'b self, attribute: &PointAttributeDefinition, index: usize) -> &'b [u8]
    where
        'a: 'b,
    {
        self.tick();
        self.h.get_attribute_ref(attribute, index)
    }
    fn get_attribute_range_ref<'b>(&'b self, attribute: &PointAttributeDefinition, range: Range<usize>) -> &'b [u8]
    where
        'a: 'b,
    {
        self.tick();
        self.h.get_attribute_range_ref(attribute, range)
    }
}
