//! Stand-in for merkletree-mintlayer 0.1 (not available offline).
use std::fmt;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleTreeFormError {
    TooSmall(usize),
}
impl fmt::Display for MerkleTreeFormError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeFormError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleTreeProofExtractionError {
    LeafIndexOutOfRange(u32, u32),
}
impl fmt::Display for MerkleTreeProofExtractionError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeProofExtractionError {}
pub mod hasher {
    pub trait PairHasher: Clone {
        type NodeType;
        fn hash_pair(left: &Self::NodeType, right: &Self::NodeType) -> Self::NodeType;
        fn hash_single(data: &Self::NodeType) -> Self::NodeType;
    }
}
pub mod tree {
    use super::*;
    use std::marker::PhantomData;
    use std::num::NonZeroUsize;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct MerkleTree<T, H> {
        pub(crate) levels: Vec<Vec<T>>,
        _h: PhantomData<H>,
    }
    pub struct Node<'a, T>(&'a T);
    impl<'a, T> Node<'a, T> {
        pub fn hash(&self) -> &'a T {
            self.0
        }
    }
    impl<T: Clone + Eq, H: hasher::PairHasher<NodeType = T>> MerkleTree<T, H> {
        pub fn from_leaves(leaves: impl IntoIterator<Item = T>) -> Result<Self, MerkleTreeFormError> {
            let mut l: Vec<T> = leaves.into_iter().collect();
            if l.is_empty() {
                return Err(MerkleTreeFormError::TooSmall(0));
            }
            while !l.len().is_power_of_two() {
                let n = H::hash_single(l.last().expect("nonempty"));
                l.push(n);
            }
            let mut levels = vec![l];
            while levels.last().expect("nonempty").len() > 1 {
                let n = levels.last().expect("nonempty").chunks(2).map(|c| H::hash_pair(&c[0], &c[1])).collect();
                levels.push(n);
            }
            Ok(Self { levels, _h: PhantomData })
        }
        pub fn root(&self) -> T {
            self.levels.last().expect("nonempty")[0].clone()
        }
        pub fn leaf_count(&self) -> NonZeroUsize {
            NonZeroUsize::new(self.levels[0].len()).expect("nonzero")
        }
        pub fn level_count(&self) -> NonZeroUsize {
            NonZeroUsize::new(self.levels.len()).expect("nonzero")
        }
        pub fn total_node_count(&self) -> NonZeroUsize {
            NonZeroUsize::new(self.levels.iter().map(|l| l.len()).sum()).expect("nonzero")
        }
        pub fn node_from_bottom(&self, level: u32, index: u32) -> Option<Node<'_, T>> {
            self.levels.get(level as usize)?.get(index as usize).map(Node)
        }
    }
}
pub mod proof {
    pub mod single {
        use crate::*;
        use std::marker::PhantomData;
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SingleProofNodes<'a, T, H> {
            idx: u32,
            tree: &'a tree::MerkleTree<T, H>,
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SingleProofHashes<T, H> {
            leaf_index_in_level: u32,
            branch: Vec<T>,
            _h: PhantomData<H>,
        }
        impl<'a, T: Clone + Eq, H: hasher::PairHasher<NodeType = T>> SingleProofNodes<'a, T, H> {
            pub fn from_tree_leaf(tree: &'a tree::MerkleTree<T, H>, idx: u32) -> Result<Self, MerkleTreeProofExtractionError> {
                if idx as usize >= tree.levels[0].len() {
                    return Err(MerkleTreeProofExtractionError::LeafIndexOutOfRange(idx, tree.levels[0].len() as u32));
                }
                Ok(Self { idx, tree })
            }
            pub fn into_values(self) -> SingleProofHashes<T, H> {
                let mut i = self.idx as usize;
                let mut branch = vec![];
                for l in &self.tree.levels[..self.tree.levels.len() - 1] {
                    branch.push(l[i ^ 1].clone());
                    i /= 2;
                }
                SingleProofHashes { leaf_index_in_level: self.idx, branch, _h: PhantomData }
            }
        }
        impl<T, H> SingleProofHashes<T, H> {
            pub fn leaf_index_in_level(&self) -> u32 {
                self.leaf_index_in_level
            }
            pub fn branch(&self) -> &[T] {
                &self.branch
            }
            pub fn into_hashes(self) -> Vec<T> {
                self.branch
            }
        }
    }
}
