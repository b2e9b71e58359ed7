//! Stand-in for nd-triangulation (which needs CGAL, not installed here).
//! Same public API as osmgraphing uses; the facets of the convex hull are found by brute force.
use std::collections::HashMap;
use std::fmt;

#[non_exhaustive]
#[derive(Debug, PartialEq, Eq)]
pub enum TriangulationError {
    WrongDimension { actual_dim: usize, expected_dim: usize },
}
impl fmt::Display for TriangulationError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for TriangulationError {}

#[derive(Debug)]
pub struct Triangulation {
    dim: usize,
    points: Vec<Vec<f64>>,
    /// id of each point; adding a point again gives it the new id, as the original does
    vertex_ids: Vec<usize>,
    next_vertex_id: usize,
    ids: HashMap<Vec<usize>, usize>,
}

#[derive(Debug, Clone)]
pub struct Cell {
    id: usize,
    vertices: Vec<usize>,
}
#[derive(Debug, Clone)]
pub struct Vertex {
    id: usize,
}
impl Vertex {
    pub fn id(&self) -> usize {
        self.id
    }
}
impl Cell {
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn vertices(&self) -> impl Iterator<Item = Vertex> {
        self.vertices
            .iter()
            .map(|&id| Vertex { id })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

impl Triangulation {
    pub fn new(dim: usize) -> Triangulation {
        Triangulation { dim, points: Vec::new(), vertex_ids: Vec::new(), next_vertex_id: 0, ids: HashMap::new() }
    }

    pub fn add_vertex(&mut self, coords: &[f64]) -> Result<usize, TriangulationError> {
        if coords.len() != self.dim {
            return Err(TriangulationError::WrongDimension {
                actual_dim: coords.len(),
                expected_dim: self.dim,
            });
        }
        let id = self.next_vertex_id;
        self.next_vertex_id += 1;
        if let Some(i) = self.points.iter().position(|p| &p[..] == coords) {
            self.vertex_ids[i] = id;
        } else {
            self.points.push(coords.to_vec());
            self.vertex_ids.push(id);
        }
        Ok(id)
    }

    /// Facets of the hull. Only full-dimensional point-sets have facets with `dim` vertices.
    pub fn convex_hull_cells(&mut self) -> std::vec::IntoIter<Cell> {
        let d = self.dim;
        let n = self.points.len();
        let mut out = Vec::new();
        if d == 0 || n < d + 1 {
            return out.into_iter();
        }
        let mut comb: Vec<usize> = (0..d).collect();
        loop {
            if let Some((normal, off)) = hyperplane(&comb.iter().map(|&i| &self.points[i][..]).collect::<Vec<_>>()) {
                let scale = self
                    .points
                    .iter()
                    .map(|p| dot(&normal, p).abs())
                    .fold(1.0f64, f64::max);
                let eps = 1e-9 * scale;
                let (mut pos, mut neg) = (false, false);
                for p in &self.points {
                    let s = dot(&normal, p) - off;
                    if s > eps {
                        pos = true;
                    } else if s < -eps {
                        neg = true;
                    }
                }
                if pos != neg {
                    let next = self.ids.len() + 1;
                    let id = *self.ids.entry(comb.clone()).or_insert(next);
                    out.push(Cell { id, vertices: comb.iter().map(|&i| self.vertex_ids[i]).collect() });
                }
            }
            // next combination
            let mut i = d;
            loop {
                if i == 0 {
                    return out.into_iter();
                }
                i -= 1;
                if comb[i] != i + n - d {
                    break;
                }
            }
            comb[i] += 1;
            for j in i + 1..d {
                comb[j] = comb[j - 1] + 1;
            }
        }
    }
}

fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// unit normal and offset of the hyperplane through `d` points in R^d, None if degenerate
fn hyperplane(ps: &[&[f64]]) -> Option<(Vec<f64>, f64)> {
    let d = ps.len();
    if d == 1 {
        return Some((vec![1.0], ps[0][0]));
    }
    // (d-1) x d matrix of differences; its null space is the normal
    let mut m: Vec<Vec<f64>> = ps[1..]
        .iter()
        .map(|p| p.iter().zip(ps[0]).map(|(a, b)| a - b).collect())
        .collect();
    let maxabs = m.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    if maxabs == 0.0 {
        return None;
    }
    let mut pivots = Vec::new();
    let mut r = 0;
    for c in 0..d {
        if r == d - 1 {
            break;
        }
        let best = (r..d - 1).max_by(|&a, &b| m[a][c].abs().partial_cmp(&m[b][c].abs()).unwrap())?;
        if m[best][c].abs() <= 1e-9 * maxabs {
            continue;
        }
        m.swap(r, best);
        let piv = m[r][c];
        for x in m[r].iter_mut() {
            *x /= piv;
        }
        let row = m[r].clone();
        for k in 0..d - 1 {
            if k != r {
                let f = m[k][c];
                for (x, y) in m[k].iter_mut().zip(&row) {
                    *x -= f * y;
                }
            }
        }
        pivots.push(c);
        r += 1;
    }
    if r < d - 1 {
        return None;
    }
    let free = (0..d).find(|c| !pivots.contains(c))?;
    let mut normal = vec![0.0; d];
    normal[free] = 1.0;
    for (row, &c) in pivots.iter().enumerate() {
        normal[c] = -m[row][free];
    }
    let len = dot(&normal, &normal).sqrt();
    for x in normal.iter_mut() {
        *x /= len;
    }
    let off = dot(&normal, ps[0]);
    Some((normal, off))
}
