import enum
from html import escape


class Margins:
    def __init__(self, left, top, right, bottom):
        self.left, self.top, self.right, self.bottom = left, top, right, bottom


class PaintMode(enum.Enum):
    fill = 1
    stroke = 2


class CoordinateSystem(enum.Enum):
    frame = 1
    frameMargins = 2
    content = 3
    contentMargins = 4


class BoundsAggregator:
    def __init__(self):
        self.bounds = []

    def addBounds(self, bounds):
        self.bounds.append(tuple(bounds))


class GlyphPlotterEngine:
    def __init__(self):
        self._boundsAggregator = BoundsAggregator()
        self._content = []
        self._pen = (0, 0)
        self._contentMargins = self._frameMargins = None
        self._labelFont, self._labelFontSize = "Times", (12, 12)
        self._fillColor = self._fillOpacity = None
        self._strokeWidth = self._strokeColor = self._strokeOpacity = self._strokeDash = None

    def setContentMargins(self, margins):
        self._contentMargins = margins

    def setFrameMargins(self, margins):
        self._frameMargins = margins

    def setLabelFontSize(self, size, lineHeight):
        self._labelFontSize = (size, lineHeight)

    def setFillColor(self, color):
        self._fillColor = color

    def setFillOpacity(self, opacity):
        self._fillOpacity = opacity

    def setStrokeWidth(self, width):
        self._strokeWidth = width

    def setStrokeColor(self, color):
        self._strokeColor = color

    def setStrokeOpacity(self, opacity):
        self._strokeOpacity = opacity

    def setStrokeDash(self, dash):
        self._strokeDash = dash

    def moveToXY(self, x, y):
        self._pen = (x, y)

    @staticmethod
    def _attributes(**values):
        return " ".join(f"{k.replace('_', '-')}='{v}'" for k, v in values.items() if v is not None)

    def _fillAttributes(self):
        return self._attributes(fill=self._fillColor, fill_opacity=self._fillOpacity)

    def _strokeAttributes(self):
        return self._attributes(stroke=self._strokeColor, stroke_width=self._strokeWidth, stroke_opacity=self._strokeOpacity,
                                stroke_dasharray=self._strokeDash)

    def drawCircle(self, coordinates, x, y, radius, paintMode=PaintMode.stroke):
        paint = self._fillAttributes() if paintMode is PaintMode.fill else f"fill='none' {self._strokeAttributes()}"
        self._content.append(f"<circle cx='{x}' cy='{y}' r='{radius}' {paint}/>")

    def drawLabel(self, coordinates, x, y, angle, alignment, text):
        self._content.append(f"<text x='{x}' y='{y}' {self._fillAttributes()}>{escape(str(text))}</text>")

    def drawArrow(self, coordinates, x1, y1, x2, y2, style="open60", position="end"):
        self._content.append(f"<line x1='{x1}' y1='{y1}' x2='{x2}' y2='{y2}' {self._strokeAttributes()}/>")
