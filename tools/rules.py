RULES = [
    ('TeX document is written in UTF|TeX buffer|buffer appended', 'F06'), ('file of fibers', 'T01'), ('last span of a spline', 'G09'), ('object of sympy', 'M01'),
    ('yarn|a fabric cannot|a seam has|database of (fibers|stitches)', 'T01'), ('letters of the directory', 'C04'), ('XML object|attribute of a super', 'C05'),
    ('monostate', 'C03'),
    ('AtomicCounter', 'C01'), ('DirectedAcyclicGraph', 'C02'),
    ('the stroke style was written|colour of a spline', 'S03'), ('vit |Valentina|Patro/Measurement/Valentina', 'M02'),
    ('GraphicStyle|TypographyUnit', 'R02'), ('tiling a scene|a tile is at', 'R03'), ('size of its view', 'R04'),
    ('DXF (file|poly)|closed spline cannot', 'F05'),
    ('added to a scene|added as one item|path item has no geometry', 'R05'),
    ('Qt painter|on screen|painted at the previous position', 'F04'),
    ('SVG drawing|circle to a SVG|written to SVG|PDF |DXF drawing|TeX d|Matplotlib|missing paint method', 'F03'),
    ('SVG path|SVG transform', 'F01'), ('SVG|XML element is read|boolean attribute|numbers of a list', 'F02'),
    ('several custom measurements|special functions|registered as dependencies', 'S01'),
    ('FileFormat/Valentina|Common/Xml an undefined', 'S03'),
    ('ids of the operations are unique', 'S03'), ('could not be found in a scene', 'R01'),
    ('Pattern/SketchOperation', 'S02'),
    ('Pattern/Sketch detail scene', 'S04'),
    ('Patro/Measurement', 'M01'),
    ('GraphicScene|GraphicItem|GraphicEngine/GraphicScene', 'R01'),
    ('ArrowHead|arrow head', 'G12'),
    ('GeometryEngine/Vector', 'G01'), ('GeometryEngine/Transformation', 'G02'),
    ('GeometryEngine/(Line|Segment)', 'G03'), ('GeometryEngine/Primitive|cached edges', 'G04'),
    ('convex_hull', 'G06'), ('GeometryEngine/Polygon', 'G05'),
    ('GeometryEngine/(Triangle|Rectangle|Polyline)', 'G07'),
    ('GeometryEngine/Bezier', 'G08'), ('GeometryEngine/Spline', 'G09'), ('GeometryEngine/Path', 'G10'),
    ('GeometryEngine/(Conic|Mixin)', 'G11'), ('Common/Math/Root', 'G08'),
]
