// Bounding boxes: /repo/packedrtree/box.go
package packedrtree

def nonnan(b) = !nan(b.XMin) && !nan(b.YMin) && !nan(b.XMax) && !nan(b.YMax)
// a contains b, as closed rectangles given by their bounds
def covers(a, b) = fle(a.XMin, b.XMin) && fle(a.YMin, b.YMin) && fle(b.XMax, a.XMax) && fle(b.YMax, a.YMax)
def coversXY(a, x, y) = fle(a.XMin, x) && fle(a.YMin, y) && fle(x, a.XMax) && fle(y, a.YMax)
def samerank(a, b) = rank(a.XMin) == rank(b.XMin) && rank(a.YMin) == rank(b.YMin) && rank(a.XMax) == rank(b.XMax) && rank(a.YMax) == rank(b.YMax)
def isEmptyBox(b) = !nan(b.XMin) && rank(b.XMin) == 9218868437227405312 && !nan(b.YMin) && rank(b.YMin) == 9218868437227405312 && !nan(b.XMax) && rank(b.XMax) == -9218868437227405312 && !nan(b.YMax) && rank(b.YMax) == -9218868437227405312
def fmin2(x, y) = if flt(y, x) then y else x
def fmax2(x, y) = if flt(x, y) then y else x

func Box.Expand(b, c)
  prop C06 C02
  modifies *b
  ensures value-xmin: b.XMin == fmin2(old(b.XMin), old(c.XMin))
  ensures value-ymin: b.YMin == fmin2(old(b.YMin), old(c.YMin))
  ensures value-xmax: b.XMax == fmax2(old(b.XMax), old(c.XMax))
  ensures value-ymax: b.YMax == fmax2(old(b.YMax), old(c.YMax))
  ensures upper-bound: (nonnan(old(*b)) && nonnan(old(*c))) ==> covers(*b, old(*b)) && covers(*b, old(*c)) && nonnan(*b)
  ensures least-xmin: (nonnan(old(*b)) && nonnan(old(*c))) ==> (rank(b.XMin) == rank(old(b.XMin)) || rank(b.XMin) == rank(old(c.XMin)))
  ensures least-ymin: (nonnan(old(*b)) && nonnan(old(*c))) ==> (rank(b.YMin) == rank(old(b.YMin)) || rank(b.YMin) == rank(old(c.YMin)))
  ensures least-xmax: (nonnan(old(*b)) && nonnan(old(*c))) ==> (rank(b.XMax) == rank(old(b.XMax)) || rank(b.XMax) == rank(old(c.XMax)))
  ensures least-ymax: (nonnan(old(*b)) && nonnan(old(*c))) ==> (rank(b.YMax) == rank(old(b.YMax)) || rank(b.YMax) == rank(old(c.YMax)))
  ensures idempotent: (nonnan(old(*b)) && nonnan(old(*c)) && covers(old(*b), old(*c))) ==> *b == old(*b)
  ensures neutral-left: (isEmptyBox(old(*b)) && nonnan(old(*c))) ==> samerank(*b, old(*c))
  ensures neutral-right: (isEmptyBox(old(*c)) && nonnan(old(*b))) ==> *b == old(*b)

func Box.Expand@self(b, c)
  prop C06
  config c = alias b
  modifies *b
  ensures unchanged: nonnan(old(*b)) ==> *b == old(*b)

func Box.ExpandXY(b, x, y)
  prop C06
  modifies *b
  ensures value-xmin: b.XMin == fmin2(old(b.XMin), x)
  ensures value-ymin: b.YMin == fmin2(old(b.YMin), y)
  ensures value-xmax: b.XMax == fmax2(old(b.XMax), x)
  ensures value-ymax: b.YMax == fmax2(old(b.YMax), y)
  ensures upper-bound: (nonnan(old(*b)) && !nan(x) && !nan(y)) ==> covers(*b, old(*b)) && coversXY(*b, x, y) && nonnan(*b)
  ensures idempotent: (nonnan(old(*b)) && !nan(x) && !nan(y) && coversXY(old(*b), x, y)) ==> *b == old(*b)
  ensures point: (isEmptyBox(old(*b)) && !nan(x) && !nan(y)) ==> rank(b.XMin) == rank(x) && rank(b.XMax) == rank(x) && rank(b.YMin) == rank(y) && rank(b.YMax) == rank(y)

// two closed rectangles share a point (x,y) exactly when neither lies beyond the other
def share(a, b) = fle(a.XMin, b.XMax) && fle(b.XMin, a.XMax) && fle(a.YMin, b.YMax) && fle(b.YMin, a.YMax)

func Box.intersects(b, c) result
  prop C06 C03
  ensures exact: (nonnan(*b) && nonnan(*c)) ==> (result <==> share(*b, *c))
  ensures nan: result <==> (!flt(b.XMax, c.XMin) && !flt(b.YMax, c.YMin) && !flt(c.XMax, b.XMin) && !flt(c.YMax, b.YMin))
  // a common point is a witness; without one there is none
  ensures witness: (nonnan(*b) && nonnan(*c) && fle(b.XMin, b.XMax) && fle(b.YMin, b.YMax) && fle(c.XMin, c.XMax) && fle(c.YMin, c.YMax) && result) ==> coversXY(*b, fmax2(b.XMin, c.XMin), fmax2(b.YMin, c.YMin)) && coversXY(*c, fmax2(b.XMin, c.XMin), fmax2(b.YMin, c.YMin))
  ensures nowitness: (nonnan(*b) && nonnan(*c) && !result) ==> (forall x: f64, y: f64 :: !(coversXY(*b, x, y) && coversXY(*c, x, y)))

func Box.intersects@self(b, c) result
  prop C06
  config c = alias b
  ensures exact: nonnan(*b) ==> (result <==> share(*b, *b))

func Box.Width(b) result
  prop C06 C07
  ensures width: result == fsub(b.XMax, b.XMin)
func Box.Height(b) result
  prop C06 C07
  ensures height: result == fsub(b.YMax, b.YMin)
