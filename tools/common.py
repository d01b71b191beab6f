PROPS = []
NOT_APPLICABLE = []
def P(id, title, statement, over, text, why, files, mech, note, level="model_checking", technique=None, claimed=True):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, note=note, level=level, technique=technique, claimed=claimed))
