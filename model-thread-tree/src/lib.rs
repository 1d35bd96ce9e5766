//! Stand-in for the thread-tree crate used when the IR for symbolic execution is produced.
//!
//! Same public API and tree shape. A `join` at a node that has a worker thread reports
//! fork / switch / join to the symbolic executor, which treats the two jobs as concurrent;
//! at the bottom of the tree both jobs run on the current thread, as in the real crate.

extern "C" {
    fn mmv_pool(level: usize);
    fn mmv_fork();
    fn mmv_switch();
    fn mmv_join();
}

pub struct ThreadTree {
    parallel: bool,
    child: Option<[Box<ThreadTree>; 2]>,
}

impl ThreadTree {
    #[inline]
    pub const fn new_level0() -> Self {
        ThreadTree { parallel: false, child: None }
    }

    pub fn new_with_level(level: usize) -> Box<Self> {
        unsafe { mmv_pool(level) }
        Self::build(level)
    }

    fn build(level: usize) -> Box<Self> {
        assert!(level <= 12);
        if level == 0 {
            Box::new(Self::new_level0())
        } else if level == 1 {
            Box::new(ThreadTree { parallel: true, child: None })
        } else {
            let a = Self::build(level - 1);
            let b = Self::build(level - 1);
            Box::new(ThreadTree { parallel: true, child: Some([a, b]) })
        }
    }

    #[inline]
    pub fn is_parallel(&self) -> bool { self.parallel }

    #[inline]
    pub fn top(&self) -> ThreadTreeCtx<'_> { ThreadTreeCtx { tree: self, _not_send_sync: &() } }
}

static BOTTOM: ThreadTree = ThreadTree::new_level0();

#[derive(Copy, Clone)]
pub struct ThreadTreeCtx<'a> {
    tree: &'a ThreadTree,
    _not_send_sync: *const (),
}

impl ThreadTreeCtx<'_> {
    #[inline]
    pub fn is_parallel(&self) -> bool { self.tree.parallel }

    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
        where A: FnOnce(ThreadTreeCtx) -> RA + Send,
              B: FnOnce(ThreadTreeCtx) -> RB + Send,
              RA: Send,
              RB: Send,
    {
        let (fa, fb) = match &self.tree.child {
            None => (&BOTTOM, &BOTTOM),
            Some([x, y]) => (&**x, &**y),
        };
        let par = self.tree.parallel;
        if par { unsafe { mmv_fork() } }
        let ra = a(fa.top());
        if par { unsafe { mmv_switch() } }
        let rb = b(fb.top());
        if par { unsafe { mmv_join() } }
        (ra, rb)
    }

    pub fn join3l<A, RA>(&self, a: &A) -> ((RA, RA), RA)
        where A: Fn(ThreadTreeCtx, usize) -> RA + Sync,
              RA: Send,
    {
        self.join(move |ctx| ctx.join(move |ctx| a(ctx, 0), move |ctx| a(ctx, 1)),
                  move |ctx| a(ctx, 2))
    }

    pub fn join3r<A, RA>(&self, a: &A) -> (RA, (RA, RA))
        where A: Fn(ThreadTreeCtx, usize) -> RA + Sync,
              RA: Send,
    {
        self.join(move |ctx| a(ctx, 0),
                  move |ctx| ctx.join(move |ctx| a(ctx, 1), move |ctx| a(ctx, 2)))
    }

    pub fn join4<A, RA>(&self, a: &A) -> ((RA, RA), (RA, RA))
        where A: Fn(ThreadTreeCtx, usize) -> RA + Sync,
              RA: Send,
    {
        self.join(move |ctx| ctx.join(move |ctx| a(ctx, 0), move |ctx| a(ctx, 1)),
                  move |ctx| ctx.join(move |ctx| a(ctx, 2), move |ctx| a(ctx, 3)))
    }
}
