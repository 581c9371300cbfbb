class Color:
    def __init__(self, red, green, blue):
        self.red, self.green, self.blue = red, green, blue

    def __repr__(self):
        return f"rgb({self.red}, {self.green}, {self.blue})"
