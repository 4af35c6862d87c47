from props.framing import run  # noqa
