//! Offline stand-in for the parts of digest 0.8 the tree uses.
pub trait Input {
    fn input<B: AsRef<[u8]>>(&mut self, data: B);
    fn chain<B: AsRef<[u8]>>(mut self, data: B) -> Self
    where
        Self: Sized,
    {
        self.input(data);
        self
    }
}
pub trait XofReader {
    fn read(&mut self, buffer: &mut [u8]);
}
pub trait ExtendableOutput {
    type Reader: XofReader;
    fn xof_result(self) -> Self::Reader;
}
